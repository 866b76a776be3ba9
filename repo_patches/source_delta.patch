From 9beb38ef10ebeffe9bdaa7d6a32778d7c60749b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 01/84] fix: lemon emits a well-formed header comment so
 generated parsers compile

The comment naming the input grammar was closed twice, leaving a stray
'.' and '*/' at file scope; line accounting follows the emitted text.
---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..332dd49 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4955,7 +4955,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From dbbe6435c56d8106df69ef333971db01b08ef57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 02/84] fix: lemon keeps %nonassoc error actions (no
 auto-reduce over them, no stale reduce, no assert)

---
 lemon/lemon.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 332dd49..61335f7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1302,7 +1302,7 @@ static int resolve_conflict(
     apy->type = SSCONFLICT;
     errcnt++;
   }
-  if( apx->type==SHIFT && apy->type==REDUCE ){
+  if( (apx->type==SHIFT || apx->type==ERROR) && apy->type==REDUCE ){
     spx = apx->sp;
     spy = apy->x.rp->precsym;
     if( spy==0 || spx->prec<0 || spy->prec<0 ){
@@ -1320,7 +1320,8 @@ static int resolve_conflict(
       apx->type = SH_RESOLVED;
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
-      apx->type = ERROR;
+      apx->type = ERROR;            /* non-associative: neither shift */
+      apy->type = RD_RESOLVED;      /* nor reduce is allowed */
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
@@ -5612,7 +5613,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From fd9056ac58af29bd3335d43836d11084246280cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 03/84] fix: y.output names the left-hand side of the first
 rule of a reduce/reduce conflict

---
 byacc/verbose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/verbose.c b/byacc/verbose.c
index e2879a5..2377268 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -163,7 +163,7 @@ print_conflicts(byacc_t* S, int state)
                     r1 = number - RULE_NUM_OFFSET;
 		    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-                            (long)(r1), S->symbol_name[S->rlhs[r1]],
+                            (long)(r1), S->symbol_name[S->rlhs[number]],
                             (long)(r2), S->symbol_name[S->rlhs[p->number]],
 			    S->symbol_name[symbol]);
 		}
-- 
2.43.0


From a34b6eeb56a42f6eaadb69fe43ca099a3e50297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 04/84] fix: grow the edge array of build_relations; many rules
 with a common part overran it

---
 byacc/lalr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/byacc/lalr.c b/byacc/lalr.c
index 33c8e21..bd6b8d5 100644
--- a/byacc/lalr.c
+++ b/byacc/lalr.c
@@ -337,11 +337,12 @@ build_relations(byacc_t* S)
     int symbol2;
     Value_t *shortp;
     Value_t *edge;
+    int maxedges = S->fs3_ngotos + 1;
     Value_t *states;
     Value_t **new_includes;
 
     S->fs3_includes = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    edge = NEW2(maxedges, Value_t);
     states = NEW2(S->fs3_maxrhs + 1, Value_t);
 
     for (i = 0; i < S->fs3_ngotos; i++)
@@ -383,6 +384,13 @@ build_relations(byacc_t* S)
 		if (ISVAR(*rp))
 		{
 		    stateno = states[--length];
+		    if (nedges >= maxedges)
+		    {
+			/* rules with a common part repeat its edges */
+			maxedges *= 2;
+			edge = TREALLOC(Value_t, edge, maxedges);
+			NO_SPACE(edge);
+		    }
 		    edge[nedges++] = map_goto(S, stateno, *rp);
 		    if (S->nullable[*rp] && length > 0)
 			done_flag = 0;
-- 
2.43.0


From 76865c766b36b05e3271bf7e1e5252b76caac6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 05/84] fix: byacc does not crash on arguments of undeclared or
 untyped nonterminals

---
 byacc/reader.c | 53 +++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..18e5865 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1810,6 +1810,25 @@ declare_expect(byacc_t* S, int assoc)
 }
 
 #if defined(YYBTYACC)
+static void
+alloc_args(byacc_t* S, bucket *bp, int args)
+{
+    bp->args = args;
+    if (args > 0)
+    {
+	bp->argnames = CALLOC(sizeof(char *), args);
+	NO_SPACE(bp->argnames);
+	bp->argtags = CALLOC(sizeof(char *), args);
+	NO_SPACE(bp->argtags);
+    }
+}
+
+static char *
+arg_tag(const bucket *bp, int i)
+{
+    return (i < bp->args) ? bp->argtags[i] : NULL;
+}
+
 static void
 declare_argtypes(byacc_t* S, bucket *bp)
 {
@@ -1826,6 +1845,8 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	    unexpected_EOF(S);
 	if (c != '<')
 	    syntax_error(S, S->lineno, S->line, S->cptr);
+	if (args >= MAXARGS)
+	    syntax_error(S, S->lineno, S->line, S->cptr);
 	tags[args++] = get_tag(S);
 	c = nextc(S);
 	if (c == R_PAREN)
@@ -1834,16 +1855,9 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	    unexpected_EOF(S);
     }
     S->cptr++;			/* skip close paren */
-    bp->args = args;
-    bp->argnames = TMALLOC(char *, args);
-    NO_SPACE(bp->argnames);
-    bp->argtags = CALLOC(sizeof(char *), args + 1);
-    NO_SPACE(bp->argtags);
+    alloc_args(S, bp, args);
     while (--args >= 0)
-    {
 	bp->argtags[args] = tags[args];
-	bp->argnames[args] = NULL;
-    }
 }
 #endif
 
@@ -2284,12 +2298,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
     }
     else
     {
-	if ((a->args = argslen) == 0)
-	    return;
-	a->argnames = TMALLOC(char *, argslen);
-	NO_SPACE(a->argnames);
-	a->argtags = TMALLOC(char *, argslen);
-	NO_SPACE(a->argtags);
+	alloc_args(S, a, argslen);
     }
     if (!args)
 	return;
@@ -2315,7 +2324,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 		bad_formals(S);
 	    if (redec)
 	    {
-		if (a->argtags[i] != tmp)
+		if (i < a->args && a->argtags[i] != tmp)
 		    arg_type_disagree_warning(S, S->rescan_lineno, i + 1, a->name);
 	    }
 	    else
@@ -2323,7 +2332,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 	}
 	else if (!redec)
 	    a->argtags[i] = NULL;
-	if (!(p = parse_id(S, p, &a->argnames[i])))
+	if (!(p = parse_id(S, p, (i < a->args) ? &a->argnames[i] : NULL)))
 	    bad_formals(S);
 	while (isspace(UCH(*p)))
 	    if (*p++ == '\n')
@@ -2754,7 +2763,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	S->plhs[rule]->tag = tag ? cache_tag(S, tag, strlen(tag)) : NULL;
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
@@ -2831,14 +2840,14 @@ add_symbol(byacc_t* S)
 
 #if defined(YYBTYACC)
     if (bp->args < 0)
-	bp->args = argslen;
+	alloc_args(S, bp, argslen);
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
 	if (S->plhs[S->nrules]->args != bp->args)
 	    wrong_number_args_warning(S, "default ", bp->name);
 	for (i = bp->args - 1; i >= 0; i--)
-	    if (S->plhs[S->nrules]->argtags[i] != bp->argtags[i])
+	    if (arg_tag(S->plhs[S->nrules], i) != bp->argtags[i])
 		wrong_type_for_arg_warning(S, i + 1, bp->name);
     }
     else if (bp->args != argslen)
@@ -2847,14 +2856,14 @@ add_symbol(byacc_t* S)
     {
 	char *ap = args;
 	int i = 0;
-	int elide_cnt = can_elide_arg(S, &ap, bp->argtags[0]);
+	int elide_cnt = can_elide_arg(S, &ap, arg_tag(bp, 0));
 
 	if (elide_cnt > argslen)
 	    elide_cnt = 0;
 	if (elide_cnt)
 	{
 	    for (i = 1; i < elide_cnt; i++)
-		if (can_elide_arg(S, &ap, bp->argtags[i]) != elide_cnt - i)
+		if (can_elide_arg(S, &ap, arg_tag(bp, i)) != elide_cnt - i)
 		{
 		    elide_cnt = 0;
 		    break;
@@ -2870,7 +2879,7 @@ add_symbol(byacc_t* S)
 	    i = 0;
 	}
 	for (; i < argslen; i++)
-	    ap = insert_arg_rule(S, ap, bp->argtags[i]);
+	    ap = insert_arg_rule(S, ap, arg_tag(bp, i));
 	free(args);
     }
 #endif /* defined(YYBTYACC) */
-- 
2.43.0


From 007cd90ba132679a61f7672d1e7244c4d7e32213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 06/84] fix: -g with -o NAME.c used the file prefix after
 freeing it

---
 byacc/main.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index c28f85c..665b8a0 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -681,11 +681,6 @@ create_file_names(byacc_t* S)
     {
 	CREATE_FILE_NAME(S->sql_file_name, SQL_SUFFIX);
     }
-
-    if (suffix != NULL)
-    {
-	FREE(S->file_prefix);
-    }
 }
 
 #if USE_MKSTEMP
-- 
2.43.0


From 8df1d05edfe7ed115421f3e9ae2787140640fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 07/84] fix: msprintf looped forever on text longer than its
 buffer

---
 byacc/mstring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..ea382a9 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,9 +36,9 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
+	    char *new_ptr = realloc(S->fs5_buf_ptr, S->fs5_buf_len = len + 1);
 	    if (new_ptr == 0)
 	    {
 		free(S->fs5_buf_ptr);
-- 
2.43.0


From dda57df5ff332e0d942ad227487267a2d4b15a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 08/84] fix: %define reads no further than its line or the end
 of the file; tags are cached with their own length

---
 byacc/reader.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 18e5865..01fdfb1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1677,7 +1677,7 @@ get_tag(byacc_t* S)
 
     FREE(t_line);
     S->havetags = 1;
-    return cache_tag(S, S->cache, (size_t)S->cinc);
+    return cache_tag(S, S->cache, (size_t)S->cinc - 1);
 }
 
 #if defined(YYBTYACC)
@@ -1869,11 +1869,8 @@ scan_blanks(byacc_t* S)
     do
     {
 	c = next_inline(S);
-	if (c == '\n')
-	{
-	    ++S->cptr;
+	if (c == '\n' || c == EOF)
 	    return 0;
-	}
 	else if (c == ' ' || c == '\t')
 	    ++S->cptr;
 	else
@@ -1901,6 +1898,8 @@ static void
 hack_defines(byacc_t* S)
 {
     struct ainfo a;
+    int s_lineno = S->lineno;
+    int c;
 
     if (!scan_blanks(S))
 	return;
@@ -1915,6 +1914,8 @@ hack_defines(byacc_t* S)
     {
 	end_ainfo(a);
 	scan_blanks(S);
+	if (S->line == NULL)
+	    unexpected_EOF(S);
 	begin_ainfo(a, 0);
 	scan_ident(S);
 
@@ -1933,7 +1934,8 @@ hack_defines(byacc_t* S)
 	unexpected_value(S, &a);
     }
 
-    while (next_inline(S) != '\n')
+    /* skip the rest of the line, which a comment may have ended already */
+    while ((c = next_inline(S)) != '\n' && c != EOF && S->lineno == s_lineno)
 	++S->cptr;
 }
 
-- 
2.43.0


From 2c3729d2e5d82aad6c2cfd8419379502b440bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 09/84] fix: -E named escaped character tokens from outside its
 table

---
 byacc/reader.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 01fdfb1..16c9feb 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4256,27 +4256,24 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
-            ch = tkname[2];
+        /* get_literal() wrote it as 'c', '\c' or '\ooo' */
+        ch = UCH(tkname[1]);
+        if(ch == '\\') {
+            ch = UCH(tkname[2]);
             switch(ch) {
+                case 'a': ch = 7; break;
+                case 'b': ch = '\b'; break;
                 case 'n': ch = '\n'; break;
                 case 't': ch = '\t'; break;
                 case 'f': ch = '\f'; break;
                 case 'r': ch = '\r'; break;
                 case 'v': ch = '\v'; break;
-                case '\\': ch = '\\'; break;
                 default:
-                    ch = -1;
+                    if(IS_OCTAL(ch)) ch = (int)strtol(tkname+2, NULL, 8);
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
+        }
+        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
+        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-- 
2.43.0


From 0c991ee815ab907dff3d5d01a5960dc2f068c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:28 +0000
Subject: [PATCH 10/84] fix: with -r and %destructor the table file defines
 yystos

---
 byacc/output.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..eed6f34 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -367,8 +367,10 @@ output_accessing_symbols(byacc_t* S)
 	    translate[i] = S->symbol_pval[gsymb];
 	}
 
-	putl_code(S, S->output_file,
-		  "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
+	/* with -r, the tables do not see the code's #define YYDESTRUCT_CALL */
+	if (!S->rflag || !S->destructor)
+	    putl_code(S, S->output_file,
+		      "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
 	/* yystos[] may be unused, depending on compile-time defines */
 	start_int_table(S, "stos", translate[0]);
 
@@ -388,8 +390,9 @@ output_accessing_symbols(byacc_t* S)
 
 	end_table(S);
 	FREE(translate);
-	putl_code(S, S->output_file,
-		  "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
+	if (!S->rflag || !S->destructor)
+	    putl_code(S, S->output_file,
+		      "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
     }
 }
 
-- 
2.43.0


From d85785335293c96e381d4bfe1a5e8ecbaecf25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 11/84] fix: escape a quote inside a string token in yyname and
 yyrule

---
 byacc/output.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index eed6f34..12d7b36 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1413,7 +1413,7 @@ output_debug(byacc_t* S)
 		    if (*s == '\\')
 		    {
 			k += 2;
-			if (*++s == '\\')
+			if (*++s == '\\' || *s == '"')
 			    ++k;
 		    }
 		}
@@ -1432,6 +1432,8 @@ output_debug(byacc_t* S)
 			fprintf(S->output_file, "\\\\");
 			if (*++s == '\\')
 			    fprintf(S->output_file, "\\\\");
+			else if (*s == '"')
+			    fprintf(S->output_file, "\\\"");
 			else
 			    putc(*s, S->output_file);
 		    }
@@ -1539,6 +1541,8 @@ output_debug(byacc_t* S)
 		    {
 			if (s[1] == '\\')
 			    fprintf(S->output_file, "\\\\\\\\");
+			else if (s[1] == '"')
+			    fprintf(S->output_file, "\\\\\\\"");
 			else
 			    fprintf(S->output_file, "\\\\%c", s[1]);
 			++s;
-- 
2.43.0


From 8219b3cdc3741122fc447f30e3ba7b4e5a218369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 12/84] fix: %empty no longer ends the grammar

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 16c9feb..0287344 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3583,7 +3583,7 @@ mark_symbol(byacc_t* S)
 	     ((c = S->cptr[6], !IS_IDENT(c))))
     {
 	S->cptr += 6;
-	return (1);
+	return (0);
     }
     else
 	syntax_error(S, S->lineno, S->line, S->cptr);
-- 
2.43.0


From a4edd843f34d6e5debc9153f60483470b09ea7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 13/84] fix: %code blocks: braces in strings and comments, line
 of the first line

A brace inside a string, a character constant or a comment ended the
block or kept it open, and code that begins on the line after the opening
brace got the number of the line before.
---
 byacc/reader.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 0287344..7504b76 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -721,6 +721,7 @@ copy_code(byacc_t* S)
     int curl;
     int cline;
     int on_line = 0;
+    int quote = 0;		/* in a string, character constant or comment */
     int pos = CODE_HEADER;
     struct mstring *code_mstr;
 
@@ -776,6 +777,15 @@ copy_code(byacc_t* S)
     S->cptr++;			/* skip initial curl */
     while (*S->cptr && isspace(UCH(*S->cptr)))	/* skip space */
 	S->cptr++;
+    if (*S->cptr == '\0')	/* the code begins on the next line */
+    {
+	get_line(S);
+	if (S->line == NULL)
+	{
+	    unexpected_EOF(S);
+	    /*NOTREACHED */
+	}
+    }
     curl = 1;			/* nesting count */
 
     /* gather text */
@@ -807,12 +817,52 @@ copy_code(byacc_t* S)
 	case '\n':
 	    cline++;
 	    on_line = 0;
+	    if (quote != '*')
+		quote = 0;
+	    break;
+	case '\\':
+	    if (quote == '"' || quote == '\'')
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		c = *S->cptr++;
+		if (c == '\n')
+		{
+		    cline++;
+		    on_line = 0;
+		}
+	    }
+	    break;
+	case '"':
+	case '\'':
+	    if (quote == 0)
+		quote = c;
+	    else if (quote == c)
+		quote = 0;
+	    break;
+	case '/':
+	    if (quote == 0 && (*S->cptr == '*' || *S->cptr == '/'))
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		c = quote = *S->cptr++;
+	    }
+	    break;
+	case '*':
+	    if (quote == '*' && *S->cptr == '/')
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		c = *S->cptr++;
+		quote = 0;
+	    }
 	    break;
 	case L_CURL:
-	    curl++;
+	    if (quote == 0)
+		curl++;
 	    break;
 	case R_CURL:
-	    if (--curl == 0)
+	    if (quote == 0 && --curl == 0)
 	    {
 		if (on_line > 1)
 		{
-- 
2.43.0


From 232f0ee30c931b40f21a70469115f6b5f13c9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 14/84] fix: the lines of %initial-action were not counted

Every #line directive for generated code behind it named a wrong line, and
the code after it was attributed to the grammar file.
---
 byacc/output.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/byacc/output.c b/byacc/output.c
index 12d7b36..f8f1bb0 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1945,7 +1945,15 @@ static void
 output_initial_action(byacc_t* S)
 {
     if (S->initial_action)
+    {
+	char *s;
+
+	for (s = S->initial_action; (s = strchr(s, '\n')) != NULL; s++)
+	    ++S->outline;
+	++S->outline;
 	fprintf(S->code_file, "%s\n", S->initial_action);
+	write_code_lineno(S, S->code_file);
+    }
 }
 
 static void
-- 
2.43.0


From c9d32ecc9b3ddea6a57d75d5180aa196cdd40acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 15/84] fix: exports cut symbol names at 63 characters

Names are built in a buffer that grows, so long names stay distinct in the
lemon, unicc, carburetta and SQL output.
---
 byacc/reader.c | 132 +++++++++++++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 53 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 7504b76..bbf9532 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4300,9 +4300,49 @@ static const char * ygv_ascii_names_st[] = {
 /*127*/ "127" /*Delete*/
 };
 
-typedef char char64_t[64];
+/* a symbol name as another tool wants it; the text grows as needed */
+typedef struct name_buf
+{
+    byacc_t *S;
+    char *text;
+    size_t size;
+} name_buf;
+
+static char *
+name_room(name_buf *buf, size_t size)
+{
+    if (size > buf->size)
+    {
+	buf->text = TREALLOC(char, buf->text, size);
+	if (buf->text == NULL)
+	    on_error(buf->S);
+	buf->size = size;
+    }
+    return buf->text;
+}
+
+static const char *
+name_join(name_buf *buf, const char *prefix, const char *name)
+{
+    char *s = name_room(buf, strlen(prefix) + strlen(name) + 1);
+    strcpy(s, prefix);
+    strcat(s, name);
+    return s;
+}
+
+static const char *
+replace_dots(char *name)
+{
+    char *s;
+
+    for (s = name; *s; ++s) {
+        if(*s == '.')
+            *s = '_';
+    }
+    return name;
+}
 
-static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
+static const char *get_lemon_token_name(name_buf *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
@@ -4322,48 +4362,39 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
                     if(IS_OCTAL(ch)) ch = (int)strtol(tkname+2, NULL, 8);
             }
         }
-        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
+        if(ch < 127) name_join(buf, "Tk_", ygv_ascii_names_st[ch]);
+        else sprintf(name_room(buf, 16), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-            (*buf)[strlen(*buf)-1] = '\0';
+            name_join(buf, "Tk_", tkname+1);
+            buf->text[strlen(buf->text)-1] = '\0';
     }
     else if(tkname[0] == '.' || tkname[0] == '_') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
-            (*buf)[3] = '_';
+            name_join(buf, "Tk_", tkname);
+            buf->text[3] = '_';
     }
-    else if(islower(tkname[0])) {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
+    else if(islower(UCH(tkname[0]))) {
+            name_join(buf, "Tk_", tkname);
     }
     else
-        snprintf(*buf, sizeof(char64_t), "%s", tkname);
-    for(int i=0; (*buf)[i]; ++i) {
-        if((*buf)[i] == '.')
-            (*buf)[i] = '_';
-    }
-    return *buf;
+        name_join(buf, "", tkname);
+    return replace_dots(buf->text);
 }
 
-static const char *get_lemon_rule_name(char64_t *buf, const char *tkname)
+static const char *get_lemon_rule_name(name_buf *buf, const char *tkname)
 {
     if(tkname[0] == '.') {
-            snprintf(*buf, sizeof(char64_t), "x%s", tkname);
-            (*buf)[1] = '_';
+            name_join(buf, "x", tkname);
     }
     else if(tkname[0] == '_') {
-            snprintf(*buf, sizeof(char64_t), "z%s", tkname);
+            name_join(buf, "z", tkname);
     }
-    else if(isupper(tkname[0])) {
-            snprintf(*buf, sizeof(char64_t), "l_%s", tkname);
+    else if(isupper(UCH(tkname[0]))) {
+            name_join(buf, "l_", tkname);
     }
     else
-        snprintf(*buf, sizeof(char64_t), "%s", tkname);
-    for(int i=0; (*buf)[i]; ++i) {
-        if((*buf)[i] == '.')
-            (*buf)[i] = '_';
-    }
-    return *buf;
+        name_join(buf, "", tkname);
+    return replace_dots(buf->text);
 }
 
 static void
@@ -4421,7 +4452,7 @@ print_grammar_lemon(byacc_t* S)
 {
     int i, k;
     FILE *f = S->lemon_file;
-    char64_t buf;
+    name_buf buf = { S, NULL, 0 };
 
     if (!S->lemon_flag)
 	return;
@@ -4503,6 +4534,7 @@ print_grammar_lemon(byacc_t* S)
             else fprintf(f, " .\n");
         }
     }
+    free(buf.text);
 }
 
 static void
@@ -4686,14 +4718,10 @@ print_grammar_nakedQ(byacc_t* S)
     fprintf(f, "\t;\n"); /*last rule*/
 }
 
-static const char *get_normalized_rule_name(char64_t *buf, const char *tkname)
+static const char *get_normalized_rule_name(name_buf *buf, const char *tkname)
 {
-    snprintf(*buf, sizeof(char64_t), "%s", tkname);
-    for(int i=0; (*buf)[i]; ++i) {
-        if((*buf)[i] == '.')
-            (*buf)[i] = '_';
-    }
-    return *buf;
+    name_join(buf, "", tkname);
+    return replace_dots(buf->text);
 }
 
 
@@ -4702,7 +4730,7 @@ print_grammar_unicc(byacc_t* S)
 {
     int b, i, k;
     FILE *f = S->unicc_file;
-    char64_t buf;
+    name_buf buf = { S, NULL, 0 };
 
     if (!S->unicc_flag)
 	return;
@@ -4811,6 +4839,7 @@ print_grammar_unicc(byacc_t* S)
         }
     }
     fprintf(f, "\t;\n"); /*last rule*/
+    free(buf.text);
 }
 
 static void
@@ -4818,7 +4847,7 @@ print_grammar_carburetta(byacc_t* S)
 {
     int b, i, k;
     FILE *f = S->carburetta_file;
-    char64_t buf;
+    name_buf buf = { S, NULL, 0 };
 
     if (!S->carburetta_flag)
 	return;
@@ -4902,23 +4931,20 @@ print_grammar_carburetta(byacc_t* S)
         }
     }
     fprintf(f, "\t;\n"); /*last rule*/
+    free(buf.text);
 }
 
-static const char *escape_sql(char64_t *buf, const char *tkname)
+static const char *escape_sql(name_buf *buf, const char *tkname)
 {
-    int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
-        switch(tkname[i2]) {
-            case '\'':
-                (*buf)[i++] = tkname[i2];
-                (*buf)[i] = tkname[i2];
-                break;
-            default:
-            (*buf)[i] = tkname[i2];
-        }
+    char *s = name_room(buf, 2 * strlen(tkname) + 1);
+
+    while (*tkname) {
+        if (*tkname == '\'')
+            *s++ = *tkname;
+        *s++ = *tkname++;
     }
-    (*buf)[i] = '\0';
-    return *buf;
+    *s = '\0';
+    return buf->text;
 }
 
 static void
@@ -4927,7 +4953,7 @@ print_grammar_sql(byacc_t* S)
     int b, i, j, k;
     FILE *f = S->sql_file;
     bucket *bp;
-    char64_t buf;
+    name_buf buf = { S, NULL, 0 };
 
     if (!S->sql_flag)
 	return;
@@ -5140,7 +5166,7 @@ print_grammar_sql(byacc_t* S)
         "COMMIT;\n"
         "--select * from grammar_view;\n"
     );
-    
+    free(buf.text);
 }
 
 #if defined(YYBTYACC)
-- 
2.43.0


From 2dac3c102b72dd2d53e98bc630847acda91f5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 16/84] fix: -E: string tokens and names with $ become valid
 lemon names

Such a name went into the lemon grammar with its punctuation, which lemon
does not accept in a symbol.
---
 byacc/reader.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index bbf9532..9d75010 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4331,12 +4331,12 @@ name_join(name_buf *buf, const char *prefix, const char *name)
 }
 
 static const char *
-replace_dots(char *name)
+replace_marks(char *name, const char *marks)
 {
     char *s;
 
     for (s = name; *s; ++s) {
-        if(*s == '.')
+        if(strchr(marks, *s))
             *s = '_';
     }
     return name;
@@ -4366,8 +4366,15 @@ static const char *get_lemon_token_name(name_buf *buf, const char *tkname)
         else sprintf(name_room(buf, 16), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
-            name_join(buf, "Tk_", tkname+1);
-            buf->text[strlen(buf->text)-1] = '\0';
+            /* only letters, digits and _ can be part of a name */
+            size_t n = 3;
+            strcpy(name_room(buf, 16 * strlen(tkname)), "Tk_");
+            for(++tkname; tkname[1]; ++tkname) {
+                ch = UCH(*tkname);
+                if(isalnum(ch) || ch == '_') n += sprintf(buf->text + n, "%c", ch);
+                else if(ch < 127) n += sprintf(buf->text + n, "%s", ygv_ascii_names_st[ch]);
+                else n += sprintf(buf->text + n, "%d", ch);
+            }
     }
     else if(tkname[0] == '.' || tkname[0] == '_') {
             name_join(buf, "Tk_", tkname);
@@ -4378,7 +4385,7 @@ static const char *get_lemon_token_name(name_buf *buf, const char *tkname)
     }
     else
         name_join(buf, "", tkname);
-    return replace_dots(buf->text);
+    return replace_marks(buf->text, ".$");
 }
 
 static const char *get_lemon_rule_name(name_buf *buf, const char *tkname)
@@ -4394,7 +4401,7 @@ static const char *get_lemon_rule_name(name_buf *buf, const char *tkname)
     }
     else
         name_join(buf, "", tkname);
-    return replace_dots(buf->text);
+    return replace_marks(buf->text, ".$");
 }
 
 static void
@@ -4721,7 +4728,7 @@ print_grammar_nakedQ(byacc_t* S)
 static const char *get_normalized_rule_name(name_buf *buf, const char *tkname)
 {
     name_join(buf, "", tkname);
-    return replace_dots(buf->text);
+    return replace_marks(buf->text, ".");
 }
 
 
-- 
2.43.0


From 120ca7c53b16fe86aaef7fe277c820a00cf76beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 17/84] fix: -S: rulerhs rows without their INSERT

When the first rule was empty, or began with a mid-rule action, the INSERT
line was missing and the script did not load.
---
 byacc/reader.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 9d75010..cd58129 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5115,12 +5115,18 @@ print_grammar_sql(byacc_t* S)
                 ++k;
             }
         } else { /* empty rule */
-            if(!skip_rule) fprintf(f,
-              " %s(%d,%d,NULL)",
-              (b > 0) ? "," : " ", i, j++
-            );
-            ++b;
-            if((b%5) == 0) fprintf(f, "\n");
+            if(!skip_rule) {
+                if(b==0) {
+                  fprintf(f,
+                    "INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n");
+                }
+                fprintf(f,
+                  " %s(%d,%d,NULL)",
+                  (b > 0) ? "," : " ", i, j++
+                );
+                ++b;
+                if((b%5) == 0) fprintf(f, "\n");
+            }
         }
         ++k;
     }
-- 
2.43.0


From d8d429d77c1b9c93251cd9737e0e66cf3c6d9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:28 +0000
Subject: [PATCH 18/84] fix: -C: string tokens were quoted twice

---
 byacc/reader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index cd58129..1225509 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4766,7 +4766,7 @@ print_grammar_unicc(byacc_t* S)
                         fprintf(f, "#%s /*%d*/", assoc_name, prec);
                         sassoc = 1;
                     }
-                    if(sym_name[0] == '\'')
+                    if(sym_name[0] == '\'' || sym_name[0] == '"')
                         fprintf(f, " %s", sym_name);
                     else
                         fprintf(f, " \"%s\"", sym_name);
@@ -4813,7 +4813,7 @@ print_grammar_unicc(byacc_t* S)
                 if(!skip_rule && sym_name[0] != '$') {
                     bucket *bp = lookup(S, sym_name);
                     if(bp->class == TERM) {
-                        if(sym_name[0] == '\'')
+                        if(sym_name[0] == '\'' || sym_name[0] == '"')
                             fprintf(f, " %s", sym_name);
                         else
                             fprintf(f, " \"%s\"", sym_name);
@@ -4835,7 +4835,7 @@ print_grammar_unicc(byacc_t* S)
         if(!skip_rule) {
             bucket *prec_bucket = S->rprec_bucket[i];
             if(prec_bucket) {
-                if(prec_bucket->name[0] == '\'')
+                if(prec_bucket->name[0] == '\'' || prec_bucket->name[0] == '"')
                     fprintf(f, " #precedence %s", prec_bucket->name);
                 else
                     fprintf(f, " #precedence \"%s\"", prec_bucket->name);
-- 
2.43.0


From 6c74b8f3d46af03d5b01e07d695b13e3006de703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 19/84] fix: -e: an alternative with nothing but mid-rule
 actions is marked as empty

---
 byacc/reader.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 1225509..e799a7f 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4126,7 +4126,7 @@ print_grammar(byacc_t* S)
 static void
 print_grammar_ebnf(byacc_t* S)
 {
-    int i, k;
+    int i, k, empty;
     FILE *f = S->ebnf_file;
 
     if (!S->ebnf_flag)
@@ -4149,20 +4149,18 @@ print_grammar_ebnf(byacc_t* S)
 	    fprintf(f, "\t|");
 	}
 
-        if(!(S->ritem[k] >= 0)) {
-            if(!skip_rule)
-                fprintf(f, " /*empty*/");
-        }
-        else
+        empty = 1;
+        while (S->ritem[k] >= 0)
         {
-            while (S->ritem[k] >= 0)
-            {
-                sym_name = S->symbol_name[S->ritem[k]];
-                if(!skip_rule && sym_name[0] != '$')
-                    fprintf(f, " %s", sym_name);
-                ++k;
+            sym_name = S->symbol_name[S->ritem[k]];
+            if(!skip_rule && sym_name[0] != '$') {
+                fprintf(f, " %s", sym_name);
+                empty = 0;
             }
+            ++k;
         }
+        if(empty && !skip_rule)
+            fprintf(f, " /*empty*/");
 	++k;
         if(!skip_rule)
             putc('\n', f);
-- 
2.43.0


From 821bd48ed51ef8d9e15bc16e8ee34866d4d03893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 20/84] fix: -c: the rules use the names under which the tokens
 are declared

---
 byacc/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index e799a7f..86a5b42 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4911,7 +4911,11 @@ print_grammar_carburetta(byacc_t* S)
             while (S->ritem[k] >= 0)
             {
                 Value_t symbol = S->ritem[k];
-                sym_name = get_normalized_rule_name(&buf, S->symbol_name[symbol]);
+                sym_name = S->symbol_name[symbol];
+                if(symbol < S->ntokens && sym_name[0] != '$' && strcmp(sym_name, "error") != 0)
+                    sym_name = get_lemon_token_name(&buf, sym_name);
+                else
+                    sym_name = get_normalized_rule_name(&buf, sym_name);
                 if(!skip_rule && sym_name[0] != '$') {
                     fprintf(f, " %s", sym_name);
                     print_symbol_prec_commented(S, f, symbol);
-- 
2.43.0


From de4aeb719457a01aa3685bf05701ed42b4f3de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:27 +0000
Subject: [PATCH 21/84] fix: -S: %prec with a token that has no precedence was
 dropped

Such a rule has no precedence; without the mark it takes that of its last
token.
---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 86a5b42..4968add 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5056,7 +5056,7 @@ print_grammar_sql(byacc_t* S)
               (b > 0) ? "," : " ", i, S->rlhs[i]
             );
             bucket *prec_bucket = S->rprec_bucket[i];
-            if(prec_bucket && prec_bucket->prec_on_decl) {
+            if(prec_bucket) {
                 fprintf(f,"%d)", prec_bucket->index);
             }
             else fprintf(f,"NULL)");
-- 
2.43.0


From 17a95663f257a9d0710b1c6dab78f9cadb637c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 22/84] fix: lemon -r: compute the state numbers and default
 actions without sorting

---
 lemon/lemon.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 61335f7..b7027b6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1837,7 +1837,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5239,8 +5239,9 @@ void ReportTable(
   fprintf(out, "};\n"); lineno++;
 
   /* Output the yy_shift_ofst[] table */
+  /* (one entry per state: unsorted states without a token action may be
+  ** the last ones, and the parser looks them all up) */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
@@ -5697,8 +5698,11 @@ static int stateResortCompare(const void *a, const void *b){
 /*
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
+**
+** With noResort the states keep their order; only the numbers that the
+** table and report writers need are computed.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5724,12 +5728,13 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
+  lemp->nxstate = lemp->nstate;
+  if( noResort ) return;
   qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-  lemp->nxstate = lemp->nstate;
   while( lemp->nxstate>1 && lemp->sorted[lemp->nxstate-1]->autoReduce ){
     lemp->nxstate--;
   }
-- 
2.43.0


From ef0fb96aa99b8b846cd57663fd3cc6fe564a794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 23/84] fix: lemon: the exit status no longer wraps to 0 at 256
 errors

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b7027b6..ab4fcae 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1754,7 +1754,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
-- 
2.43.0


From 619a6aa84cc72cfe97a87a63692b85187476b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 24/84] fix: lemon: a recursive start symbol is an error, not
 an assertion failure

---
 lemon/lemon.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ab4fcae..b60f597 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1298,6 +1298,12 @@ static int resolve_conflict(
   struct symbol *spx, *spy;
   int errcnt = 0;
   assert( apx->sp==apy->sp );  /* Otherwise there would be no conflict */
+  if( apx->type==SHIFT && apy->type==ACCEPT ){
+    /* The start symbol begins one of its own rules: an error that
+    ** FindStates() has reported already */
+    apy->type = NOT_USED;
+    return 0;
+  }
   if( apx->type==SHIFT && apy->type==SHIFT ){
     apy->type = SSCONFLICT;
     errcnt++;
-- 
2.43.0


From 15de6a2e811bd0baaa2e0f3a794a72957ef2009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 25/84] fix: -E: a start symbol that is used in a rule gets a
 rule of its own, as lemon wants

---
 byacc/reader.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 4968add..233210f 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4455,7 +4455,7 @@ get_prec_name(byacc_t* S, int sym_id) {
 static void
 print_grammar_lemon(byacc_t* S)
 {
-    int i, k;
+    int i, k, used;
     FILE *f = S->lemon_file;
     name_buf buf = { S, NULL, 0 };
 
@@ -4493,7 +4493,19 @@ print_grammar_lemon(byacc_t* S)
             fprintf(f, " .\n");
         }
     }
-    fprintf(f, "\n%%start_symbol %s\n", get_lemon_rule_name(&buf, S->goal->name));
+    /* lemon does not allow the start symbol on the right hand side of a rule;
+     * the first such symbol is in the rule that byacc itself added */
+    used = 0;
+    for (i = 0; i < S->nitems; ++i)
+    {
+        if(S->ritem[i] >= 0 && strcmp(S->symbol_name[S->ritem[i]], S->goal->name) == 0)
+            ++used;
+    }
+    if(used > 1) {
+        fprintf(f, "\n%%start_symbol x_start_rule_\n");
+        fprintf(f, "\nx_start_rule_ ::= %s .\n", get_lemon_rule_name(&buf, S->goal->name));
+    }
+    else fprintf(f, "\n%%start_symbol %s\n", get_lemon_rule_name(&buf, S->goal->name));
 
     k = 1;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
@@ -4503,7 +4515,7 @@ print_grammar_lemon(byacc_t* S)
 	{
             if (S->rlhs[i] != S->rlhs[i - 1]) fprintf(f, "\n");
 	    if(!skip_rule)
-                fprintf(f, "%s ::=", (i == START_RULE_IDX) ? "x_start_rule_" : get_lemon_rule_name(&buf, sym_name));
+                fprintf(f, "%s ::=", get_lemon_rule_name(&buf, sym_name));
 	}
 
         if(!(S->ritem[k] >= 0)) {
-- 
2.43.0


From 202c03d825b6093b2951df07d7b91ee4d370c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 26/84] fix: lemon: rules that derive a symbol from itself no
 longer stop CompressTables

---
 lemon/lemon.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b60f597..476d0f1 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5666,6 +5666,17 @@ void CompressTables(struct lemon *lemp)
       ** larger. */
       if( ap->sp->index<lemp->nterminal ) continue;
 #endif
+      /* If the rules derive a symbol from itself there is nothing to
+      ** gain: the action would lead back to itself */
+      for(n=0, ap2=ap; n<=lemp->nsymbol; n++){
+        rp2 = ap2->x.rp;
+        if( ap2->type!=SHIFTREDUCE || rp2->noCode==0 || rp2->nrhs!=1
+         || ap2->sp->index<lemp->nterminal ) break;
+        for(ap2=stp->ap; ap2 && ap2->sp!=rp2->lhs; ap2=ap2->next){}
+        assert( ap2!=0 );
+      }
+      if( n>lemp->nsymbol ) continue;
+
       /* If we reach this point, it means the optimization can be applied */
       nextap = ap;
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-- 
2.43.0


From 367e70e4baf2c976baa8597cb5a3ead90fb1a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 27/84] fix: byacc: files that cannot be written completely
 give a message and status 2

---
 byacc/main.c   | 17 ++++++++++++++++-
 byacc/output.c | 15 ++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index 665b8a0..e7c78a7 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -42,10 +42,14 @@ static char oflag;
 	if (fp != 0) { \
 	    FILE *use = fp; \
 	    fp = 0; \
-	    fclose(use); \
+	    if (ferror(use)) \
+		io_failed = 1; \
+	    if (fclose(use) != 0) \
+		io_failed = 1; \
 	}
 
 static int got_intr = 0;
+static int io_failed = 0;	/* e.g., the disk is full */
 
 void
 done(byacc_t* S, int k)
@@ -55,6 +59,10 @@ done(byacc_t* S, int k)
     DO_CLOSE(S->ebnf_file);
     DO_CLOSE(S->lemon_file);
     DO_CLOSE(S->naked_file);
+    DO_CLOSE(S->nakedq_file);
+    DO_CLOSE(S->unicc_file);
+    DO_CLOSE(S->carburetta_file);
+    DO_CLOSE(S->sql_file);
     if (S->iflag)
 	DO_CLOSE(S->externs_file);
     if (S->rflag)
@@ -67,6 +75,13 @@ done(byacc_t* S, int k)
     DO_CLOSE(S->union_file);
     DO_CLOSE(S->verbose_file);
 
+    if (io_failed && k == EXIT_SUCCESS)
+    {
+	fprintf(stderr, "%s: f - input/output error, the files are not complete\n",
+		S->myname);
+	k = 2;
+    }
+
     if (got_intr)
 	_exit(EXIT_FAILURE);
 
diff --git a/byacc/output.c b/byacc/output.c
index f8f1bb0..a28f2f0 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -11,6 +11,15 @@
 #define PER_STATE 2
 #endif
 
+/* rewind() alone would forget that something could not be written */
+static void
+rewind_tmpfile(byacc_t* S, FILE * fp)
+{
+    if (ferror(fp) || fflush(fp) != 0)
+	fatal(S, "cannot write a temporary file");
+    rewind(fp);
+}
+
 static void
 putc_code(byacc_t* S, FILE * fp, int c)
 {
@@ -1272,7 +1281,7 @@ output_defines(byacc_t* S, FILE * fp)
 	{
 	    if (S->union_file != 0)
 	    {
-		rewind(S->union_file);
+		rewind_tmpfile(S, S->union_file);
 		while ((c = getc(S->union_file)) != EOF)
 		    putc_code(S, fp, c);
 	    }
@@ -1297,7 +1306,7 @@ output_stored_text(byacc_t* S, FILE * fp)
 
     if (S->text_file == NULL)
 	open_error(S, "text_file");
-    rewind(S->text_file);
+    rewind_tmpfile(S, S->text_file);
     in = S->text_file;
     if ((c = getc(in)) == EOF)
 	return;
@@ -1671,7 +1680,7 @@ output_semantic_actions(byacc_t* S)
     int state;
     char line_state[20];
 
-    rewind(S->action_file);
+    rewind_tmpfile(S, S->action_file);
     if ((c = getc(S->action_file)) == EOF)
 	return;
 
-- 
2.43.0


From 6a8633e78dad8c95a16f2bc694dd3c6a2338b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 28/84] fix: byacc: -n and -N together no longer write over
 each other

---
 byacc/defs.h | 1 +
 byacc/main.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index d0f441d..2f3476a 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -118,6 +118,7 @@ typedef BITWORD_T bitword_t;
 #define	LEMON_SUFFIX	".yl"
 #define GRAPH_SUFFIX    ".dot"
 #define NAKED_SUFFIX    ".yn"
+#define NAKEDQ_SUFFIX   ".ynq"
 #define UNICC_SUFFIX    ".ypar"
 #define CARBURETTA_SUFFIX    ".ycbrt"
 #define SQL_SUFFIX      ".sql"
diff --git a/byacc/main.c b/byacc/main.c
index e7c78a7..6704eb7 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -679,7 +679,9 @@ create_file_names(byacc_t* S)
 
     if (S->nakedq_flag)
     {
-	CREATE_FILE_NAME(S->nakedq_file_name, NAKED_SUFFIX);
+	/* -n and -N together need two files */
+	CREATE_FILE_NAME(S->nakedq_file_name,
+			 S->naked_flag ? NAKEDQ_SUFFIX : NAKED_SUFFIX);
     }
 
     if (S->unicc_flag)
-- 
2.43.0


From d5c2ab4fcb7c5ae036bf1f8306cfe61c2bc227c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:25 +0000
Subject: [PATCH 29/84] fix: byacc: running out of memory gives a message, not
 a crash or a temporary file left behind

---
 byacc/main.c    | 10 ++++++++--
 byacc/mstring.c | 42 ++++++++++++++----------------------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index 6704eb7..6f4dc84 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -815,17 +815,23 @@ open_tmpfile(byacc_t* S, const char *label)
 		atexit(close_tmpfiles);
 	    }
 
-	    item = NEW(MY_TMPFILES);
+	    item = TMALLOC(MY_TMPFILES, 1);
+	    if (item == 0)
+		(void)unlink(name);
 	    NO_SPACE(item);
 
 	    item->name = name;
-	    NO_SPACE(item->name);
 
 	    item->next = my_tmpfiles;
 	    my_tmpfiles = item;
 	}
 	else
 	{
+	    if (fd >= 0)
+	    {
+		(void)close(fd);
+		(void)unlink(name);
+	    }
 	    FREE(name);
 	}
 	(void)umask(save_umask);
diff --git a/byacc/mstring.c b/byacc/mstring.c
index ea382a9..e533a35 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -12,6 +12,14 @@
 #define HEAD	24
 #define TAIL	8
 
+/* text that is cut off or missing would go unnoticed */
+static void
+no_memory(void)
+{
+    fprintf(stderr, "f - out of memory\n");
+    exit(2);
+}
+
 void
 msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 {
@@ -40,11 +48,7 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	{
 	    char *new_ptr = realloc(S->fs5_buf_ptr, S->fs5_buf_len = len + 1);
 	    if (new_ptr == 0)
-	    {
-		free(S->fs5_buf_ptr);
-		S->fs5_buf_ptr = 0;
-		return;
-	    }
+		no_memory();
 	    S->fs5_buf_ptr = new_ptr;
 	}
     }
@@ -72,13 +76,7 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	    s->end = s->base + nl;
 	}
 	else
-	{
-	    free(s->base);
-	    s->base = 0;
-	    s->ptr = 0;
-	    s->end = 0;
-	    return;
-	}
+	    no_memory();
     }
     memcpy(s->ptr, S->fs5_buf_ptr, len);
     s->ptr += len;
@@ -98,10 +96,7 @@ mputchar(struct mstring *s, int ch)
 	    s->end = s->base + len + len + TAIL;
 	}
 	else
-	{
-	    s->ptr = s->end = 0;
-	    return ch;
-	}
+	    no_memory();
     }
     *s->ptr++ = (char)ch;
     return ch;
@@ -112,18 +107,9 @@ msnew(void)
 {
     struct mstring *n = TMALLOC(struct mstring, 1);
 
-    if (n)
-    {
-	if ((n->base = n->ptr = MALLOC(HEAD)) != 0)
-	{
-	    n->end = n->base + HEAD;
-	}
-	else
-	{
-	    free(n);
-	    n = 0;
-	}
-    }
+    if (n == 0 || (n->base = n->ptr = MALLOC(HEAD)) == 0)
+	no_memory();
+    n->end = n->base + HEAD;
     return n;
 }
 
-- 
2.43.0


From b5511013050d91dcd6b95f703c57f698227ce395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 30/84] fix: lemon: -g, -y, -Y and -S name the start symbol of
 %start_symbol

---
 lemon/lemon.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 476d0f1..dc6da8a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3343,6 +3343,15 @@ PRIVATE FILE *file_open(
   return fp;
 }
 
+/* The start symbol: the one of %start_symbol, or else the one of the
+** first rule */
+static struct symbol *
+get_start_symbol(struct lemon *lemp)
+{
+    struct symbol *sp = lemp->start ? Symbol_find(lemp, lemp->start) : 0;
+    return sp ? sp : lemp->startRule->lhs;
+}
+
 static int
 get_symbol_prec_chr(struct symbol *sym)
 {
@@ -3518,7 +3527,7 @@ void Reprint(struct lemon *lemp)
     printf("\n%%wildcard %s .\n", lemp->wildcard->name);
   }
 
-  printf("\n%%start_symbol %s\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start_symbol %s\n\n", get_start_symbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -3625,7 +3634,7 @@ void Reprint_yacc(struct lemon *lemp)
   char *idList;
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, "", 1);
-  printf("\n%%start %s\n\n%%%%\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start %s\n\n%%%%\n\n", get_start_symbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -4793,7 +4802,7 @@ void ReportSQL(
 
   fprintf(sql,
     "UPDATE directives SET start_symbol=%d;\n",
-        lemp->startRule->lhs->index
+        get_start_symbol(lemp)->index
   );
 
   if(lemp->stacksize) {
-- 
2.43.0


From ec5c0f47a2cfee12a9c9b88e88f1152c629d2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 31/84] fix: lemon -y, -Y: a rule with several multi-terminals
 is written in every combination

---
 lemon/lemon.c | 53 ++++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index dc6da8a..2382949 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3574,8 +3574,8 @@ void Reprint(struct lemon *lemp)
 
 /* Print the text of a rule
 */
-void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
-  int i, j;
+void rule_print_yacc0(FILE *out, struct rule *rp, const int *mt_idx){
+  int i;
   fprintf(out, "%s", rp->lhs->name);
   /*    if( rp->lhsalias ) fprintf(out,"(%s)",rp->lhsalias); */
   fprintf(out," :");
@@ -3586,41 +3586,38 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
     for(i=0; i<rp->nrhs; i++){
       struct symbol *sp = rp->rhs[i];
       if( sp->type==MULTITERMINAL ){
-        //fprintf(out," m_t_%d", sp->id);
-        fprintf(out," %s", sp->subsym[mt_idx]->name);
-        print_symbol_prec_commented(out, sp->subsym[mt_idx]);
-      }else{
-        fprintf(out," %s", sp->name);
-        print_symbol_prec_commented(out, sp);
+        sp = sp->subsym[mt_idx[i]];
       }
+      fprintf(out," %s", sp->name);
+      print_symbol_prec_commented(out, sp);
       /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
     }
   }
+  if( rp->precsym ) {
+      fprintf(out, " %%prec %s",rp->precsym->name);
+      print_symbol_prec_commented(out, rp->precsym);
+  }
+  fprintf(out, " ;\n");
 }
 
+/* One rule for every combination of the alternatives of the
+** multi-terminals */
 void rule_print_yacc(FILE *out, struct rule *rp){
-    int i, j;
-    for(i=0; i<rp->nrhs; i++){
+  int i;
+  int *mt_idx = (int *)calloc(rp->nrhs + 1, sizeof(int));
+  if( mt_idx==0 ){
+    memory_error();
+  }
+  do{
+    rule_print_yacc0(out, rp, mt_idx);
+    for(i=rp->nrhs-1; i>=0; i--){
       struct symbol *sp = rp->rhs[i];
-      if( sp->type==MULTITERMINAL ){
-        for(j=0; j<sp->nsubsym; j++){
-          rule_print_yacc0(out, rp, j);
-          if( rp->precsym ) {
-              fprintf(out, " %%prec %s",rp->precsym->name);
-              print_symbol_prec_commented(out, rp->precsym);
-          }
-          fprintf(out, " ;\n");
-        }
-        return;
-      }
-      /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
-    }
-    rule_print_yacc0(out, rp, -1);
-    if( rp->precsym ) {
-        fprintf(out, " %%prec %s",rp->precsym->name);
-        print_symbol_prec_commented(out, rp->precsym);
+      if( sp->type!=MULTITERMINAL ) continue;
+      if( ++mt_idx[i]<sp->nsubsym ) break;
+      mt_idx[i] = 0;
     }
-    fprintf(out, " ;\n");
+  }while( i>=0 );
+  free(mt_idx);
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From 09e9f251e3c92a17443ec80b97d1f2c6954518de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 32/84] fix: lemon -g: %stack_size was followed by a full stop
 that lemon rejects; %expect and %yacc_prec were lost

---
 lemon/lemon.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2382949..f5816e5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3520,7 +3520,15 @@ void Reprint(struct lemon *lemp)
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, " .", 0);
   if(lemp->stacksize) {
-    printf("\n%%stack_size %s .\n", lemp->stacksize);
+    printf("\n%%stack_size {%s}\n", lemp->stacksize);
+  }
+
+  if(lemp->expect) {
+    printf("\n%%expect {%s}\n", lemp->expect);
+  }
+
+  if(lemp->yaccPrec) {
+    printf("\n%%yacc_prec\n");
   }
 
   if(lemp->wildcard) {
-- 
2.43.0


From 7addba4f4a6f642e57c51d279f2d2bee5d3ea24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 33/84] fix: lemon: an empty %token_class is an error, not a
 crash

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f5816e5..a162143 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2873,6 +2873,11 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
       break;
     case WAITING_FOR_CLASS_TOKEN:
       if( x[0]=='.' ){
+        if( psp->tkclass->nsubsym==0 ){
+          ErrorMsg(psp->filename, psp->tokenlineno,
+            "%%token_class \"%s\" has no tokens", psp->tkclass->name);
+          psp->errorcnt++;
+        }
         psp->state = WAITING_FOR_DECL_OR_RULE;
       }else if( ISUPPER(x[0]) || ((x[0]=='|' || x[0]=='/') && ISUPPER(x[1])) ){
         struct symbol *msp = psp->tkclass;
-- 
2.43.0


From f17364673a3b6a0b51a90db233ee10a3123b297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 34/84] fix: lemon: @X with a label that the left-hand side
 shares gave a stray @

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a162143..c6cf5c4 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4326,7 +4326,8 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       for(xp= &cp[1]; ISALNUM(*xp) || *xp=='_'; xp++);
       saved = *xp;
       *xp = 0;
-      if( rp->lhsalias && strcmp(cp,rp->lhsalias)==0 ){
+      if( rp->lhsalias && strcmp(cp,rp->lhsalias)==0
+       && (cp==rp->code || cp[-1]!='@') ){
         append_str(&sa_buf, zLhs,0,0,0);
         cp = xp;
         lhsused = 1;
-- 
2.43.0


From d32c2858c582e9873a73866a84bba69b26b15dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 35/84] fix: lemon: %default_destructor used the datatype of
 the last symbol for all, and ran on the error symbol

---
 lemon/lemon.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c6cf5c4..9dcbdca 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4154,6 +4154,17 @@ void emit_destructor_code(
  return;
 }
 
+/*
+** Return TRUE (non-zero) if the %default_destructor is the destructor of
+** the given symbol.  The error symbol has no value of its own to destroy:
+** the token it stands on is destroyed or shifted later.
+*/
+static int uses_default_destructor(struct symbol *sp, struct lemon *lemp)
+{
+  return lemp->vardest!=0 && sp!=0 && sp->type==NONTERMINAL && sp->index>0
+      && sp->destructor==0 && sp!=lemp->errsym;
+}
+
 /*
 ** Return TRUE (non-zero) if the given symbol has a destructor.
 */
@@ -4163,7 +4174,7 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   if( sp->type==TERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
-    ret = lemp->vardest!=0 || sp->destructor!=0;
+    ret = sp->destructor!=0 || uses_default_destructor(sp, lemp);
   }
   return ret;
 }
@@ -5400,23 +5411,30 @@ void ReportTable(
     }
   }
   if( lemp->vardest ){
-    struct symbol *dflt_sp = 0;
     int once = 1;
+    /* One copy for each datatype, since "$$" depends on it */
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
-      if( sp==0 || sp->type==TERMINAL ||
-          sp->index<=0 || sp->destructor!=0 ) continue;
+      if( !uses_default_destructor(sp,lemp) ) continue;
+      for(j=0; j<i; j++){
+        if( uses_default_destructor(lemp->symbols[j],lemp)
+         && lemp->symbols[j]->dtnum==sp->dtnum ) break;
+      }
+      if( j<i ) continue;  /* Already emitted */
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
         once = 0;
       }
-      fprintf(out,"    case %d: /* %s */\n", sp->index, sp->name); lineno++;
-      dflt_sp = sp;
-    }
-    if( dflt_sp!=0 ){
-      emit_destructor_code(out,dflt_sp,lemp,&lineno);
+      for(j=i; j<lemp->nsymbol; j++){
+        struct symbol *sp2 = lemp->symbols[j];
+        if( uses_default_destructor(sp2,lemp) && sp2->dtnum==sp->dtnum ){
+          fprintf(out,"    case %d: /* %s */\n",
+                  sp2->index, sp2->name); lineno++;
+        }
+      }
+      emit_destructor_code(out,sp,lemp,&lineno);
+      fprintf(out,"      break;\n"); lineno++;
     }
-    fprintf(out,"      break;\n"); lineno++;
   }
   for(i=0; i<lemp->nsymbol; i++){
     struct symbol *sp = lemp->symbols[i];
-- 
2.43.0


From 2207f16c012b204af776675c79a756c2a3599a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 36/84] fix: lemon: the value of a multi-terminal without a
 label was never destroyed

---
 lemon/lemon.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 9dcbdca..a780272 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4171,7 +4171,7 @@ static int uses_default_destructor(struct symbol *sp, struct lemon *lemp)
 int has_destructor(struct symbol *sp, struct lemon *lemp)
 {
   int ret;
-  if( sp->type==TERMINAL ){
+  if( sp->type==TERMINAL || sp->type==MULTITERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
     ret = sp->destructor!=0 || uses_default_destructor(sp, lemp);
@@ -4239,6 +4239,22 @@ PRIVATE char *free_StrAppendBuffer(StrAppendBuffer *sa_buf){
     free(sa_buf->z);
 }
 
+/*
+** Append a call that destroys the value of the i-th symbol on the right-hand
+** side.  Which token a multi-terminal is, only the parser knows.
+*/
+PRIVATE void append_destructor(StrAppendBuffer *sa_buf, struct rule *rp, int i){
+  int pos = i - rp->nrhs + 1;
+  if( rp->rhs[i]->type==MULTITERMINAL ){
+    append_str(sa_buf,
+        "  yy_destructor(yypParser,yymsp[%d].major,&yymsp[%d].minor);\n", 0,
+        pos, pos);
+  }else{
+    append_str(sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
+        rp->rhs[i]->index, pos);
+  }
+}
+
 /*
 ** Write and transform the rp->code string so that symbols are expanded.
 ** Populate the rp->codePrefix and rp->codeSuffix strings, as appropriate.
@@ -4282,8 +4298,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     lhsdirect = 1;
     if( has_destructor(rp->rhs[0],lemp) ){
       append_str(&sa_buf, 0,0,0,0);
-      append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-                 rp->rhs[0]->index,1-rp->nrhs);
+      append_destructor(&sa_buf, rp, 0);
       rp->codePrefix = Strsafe(lemp, append_str(&sa_buf, 0,0,0,0));
       rp->noCode = 0;
     }
@@ -4419,8 +4434,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         lemp->errorcnt++;
       }
     }else if( i>0 && has_destructor(rp->rhs[i],lemp) ){
-      append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-         rp->rhs[i]->index,i-rp->nrhs+1);
+      append_destructor(&sa_buf, rp, i);
     }
   }
 
-- 
2.43.0


From 2745eb2db6dc420208045ffa0b915d804261f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 37/84] fix: lemon: a unit rule that is optimized away no
 longer loses the value of a symbol with a destructor

---
 lemon/lemon.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a780272..8e99893 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5712,6 +5712,8 @@ void CompressTables(struct lemon *lemp)
       rp = ap->x.rp;
       if( rp->noCode==0 ) continue;
       if( rp->nrhs!=1 ) continue;
+      /* The rule has to run the destructor of its symbol */
+      if( has_destructor(rp->rhs[0], lemp) ) continue;
 #if 1
       /* Only apply this optimization to non-terminals.  It would be OK to
       ** apply it to terminal symbols too, but that makes the parser tables
@@ -5723,6 +5725,7 @@ void CompressTables(struct lemon *lemp)
       for(n=0, ap2=ap; n<=lemp->nsymbol; n++){
         rp2 = ap2->x.rp;
         if( ap2->type!=SHIFTREDUCE || rp2->noCode==0 || rp2->nrhs!=1
+         || has_destructor(rp2->rhs[0], lemp)
          || ap2->sp->index<lemp->nterminal ) break;
         for(ap2=stp->ap; ap2 && ap2->sp!=rp2->lhs; ap2=ap2->next){}
         assert( ap2!=0 );
-- 
2.43.0


From 0cc3c5132d936446f40ff3e370a84e200f2894de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 38/84] fix: lemon: the token at which the stack overflows is
 destroyed too

---
 lemon/lempar.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..e891e67 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -598,7 +598,12 @@ static YYACTIONTYPE yy_find_reduce_action(
 /*
 ** The following routine is called if the stack overflows.
 */
-static void yyStackOverflow(yyParser *yypParser){
+static void yyStackOverflow(
+  yyParser *yypParser,          /* The parser whose stack is full */
+  YYCODETYPE yyMajor,           /* The token that could not be handled */
+  ParseTOKENTYPE yyMinor        /* and its value */
+){
+   YYMINORTYPE yyminorunion;
    ParseARG_FETCH
    ParseCTX_FETCH
 #ifndef NDEBUG
@@ -607,6 +612,15 @@ static void yyStackOverflow(yyParser *yypParser){
    }
 #endif
    while( yypParser->yytos>yypParser->yystack ) yy_pop_parser_stack(yypParser);
+   /* The error symbol only borrows the value of the lookahead token, which
+   ** is still to be processed.  Any other token is lost here. */
+#ifdef YYERRORSYMBOL
+   if( yyMajor!=YYERRORSYMBOL )
+#endif
+   {
+     yyminorunion.yy0 = yyMinor;
+     yy_destructor(yypParser, yyMajor, &yyminorunion);
+   }
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
 /******** Begin %stack_overflow code ******************************************/
@@ -657,14 +671,14 @@ static void yy_shift(
 #if YYSTACKDEPTH>0 
   if( yypParser->yytos>yypParser->yystackEnd ){
     yypParser->yytos--;
-    yyStackOverflow(yypParser);
+    yyStackOverflow(yypParser, yyMajor, yyMinor);
     return;
   }
 #else
   if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz] ){
     if( yyGrowStack(yypParser) ){
       yypParser->yytos--;
-      yyStackOverflow(yypParser);
+      yyStackOverflow(yypParser, yyMajor, yyMinor);
       return;
     }
   }
@@ -913,13 +927,13 @@ void Parse(
 #endif
 #if YYSTACKDEPTH>0 
         if( yypParser->yytos>=yypParser->yystackEnd ){
-          yyStackOverflow(yypParser);
+          yyStackOverflow(yypParser, (YYCODETYPE)yymajor, yyminor);
           break;
         }
 #else
         if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz-1] ){
           if( yyGrowStack(yypParser) ){
-            yyStackOverflow(yypParser);
+            yyStackOverflow(yypParser, (YYCODETYPE)yymajor, yyminor);
             break;
           }
         }
-- 
2.43.0


From ae47b0dce40f6c26263245e1cff86b4d0cae76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 39/84] fix: lemon: after a failed parse the errors of the next
 input are reported again

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index e891e67..3547d33 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -984,6 +984,7 @@ void Parse(
       if( yypParser->yyerrcnt<0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
+      yypParser->yyerrcnt = 3;
       yymx = yypParser->yytos->major;
       if( yymx==YYERRORSYMBOL || yyerrorhit ){
 #ifndef NDEBUG
@@ -1012,7 +1013,6 @@ void Parse(
           yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
         }
       }
-      yypParser->yyerrcnt = 3;
       yyerrorhit = 1;
       if( yymajor==YYNOCODE ) break;
       yyact = yypParser->yytos->stateno;
-- 
2.43.0


From 74ead4de7abad1d2ad3bb357ff90573c31a852fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 40/84] fix: lemon: a rule with more than 128 symbols on its
 right-hand side made the parser pop too few

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 3547d33..d14d7ac 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -701,7 +701,7 @@ static const YYCODETYPE yyRuleInfoLhs[] = {
 
 /* For rule J, yyRuleInfoNRhs[J] contains the negative of the number
 ** of symbols on the right-hand side of that rule. */
-static const signed char yyRuleInfoNRhs[] = {
+static const short yyRuleInfoNRhs[] = {
 %%
 };
 
-- 
2.43.0


From 0c91c7b1e6ba68f312fb64bf973c81fe7f46a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 41/84] fix: lemon: long labels no longer overrun the buffer of
 the overwrites comment

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 8e99893..67e72a0 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4272,7 +4272,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   char lhsdirect;        /* True if LHS writes directly into stack */
   char used[MAXRHS];     /* True for each RHS element which is used */
   char zLhs[50];         /* Convert the LHS symbol into this string */
-  char zOvwrt[900];      /* Comment that to allow LHS to overwrite RHS */
+  char *zOvwrt = 0;      /* Comment that to allow LHS to overwrite RHS */
   StrAppendBuffer sa_buf;
   memset(&sa_buf, 0, sizeof(sa_buf));
 
@@ -4319,6 +4319,9 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       lemp->errorcnt++;
     }
   }else{
+    zOvwrt = (char*)malloc( lemonStrlen(rp->lhsalias)
+                          + lemonStrlen(rp->rhsalias[0]) + 20 );
+    MemoryCheck(zOvwrt);
     lemon_sprintf(zOvwrt, "/*%s-overwrites-%s*/",
                   rp->lhsalias, rp->rhsalias[0]);
     zSkip = strstr(rp->code, zOvwrt);
@@ -4454,6 +4457,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   }
   free_StrAppendBuffer(&sa_buf);
 
+  free(zOvwrt);
   return rc;
 }
 
-- 
2.43.0


From 1a88333c0deda8617756234e7b5296b6fa119001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 42/84] fix: lemon: a dot in the name of a directory is not the
 extension of the grammar file

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 67e72a0..93c96f4 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3322,7 +3322,7 @@ PRIVATE char *file_makename(struct lemon *lemp, const char *suffix)
   }
   lemon_strcat(name,filename);
   cp = strrchr(name,'.');
-  if( cp ) *cp = 0;
+  if( cp && strchr(cp,'/')==0 ) *cp = 0;
   lemon_strcat(name,suffix);
   return name;
 }
-- 
2.43.0


From 7b8dba167dced902b458b1a2101c9e528bbd8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 43/84] fix: lemon: code that ends in a label was followed by
 what comes next in the file

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 93c96f4..b4a0215 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4389,6 +4389,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
+      if( *cp==0 ) break;
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 0393b0b4acc17c116b2de8bca2ef82c6f801d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 44/84] fix: lemon: with an error symbol, an error after three
 shifted tokens was not reported

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index d14d7ac..f2b38ac 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -981,7 +981,7 @@ void Parse(
       **    shifted successfully.
       **
       */
-      if( yypParser->yyerrcnt<0 ){
+      if( yypParser->yyerrcnt<=0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
       yypParser->yyerrcnt = 3;
-- 
2.43.0


From 1d89217c0ccddf7e71202f6f06997262e74bde9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 45/84] fix: lemon: the end of input inside an error fails the
 parse instead of being discarded

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index f2b38ac..930541c 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -986,7 +986,7 @@ void Parse(
       }
       yypParser->yyerrcnt = 3;
       yymx = yypParser->yytos->major;
-      if( yymx==YYERRORSYMBOL || yyerrorhit ){
+      if( (yymx==YYERRORSYMBOL || yyerrorhit) && yymajor!=0 ){
 #ifndef NDEBUG
         if( yyTraceFILE ){
           fprintf(yyTraceFILE,"%sDiscard input token %s\n",
-- 
2.43.0


From 268b6aa7a574a5b0a8c2de2321e9c5ee895dcbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:38 +0000
Subject: [PATCH 46/84] fix: lemon: a default reduction does not hide the
 reduction for a token behind the one for the wildcard

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b4a0215..327d255 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5638,7 +5638,7 @@ void CompressTables(struct lemon *lemp)
     usesWildcard = 0;
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT && ap->sp==lemp->wildcard ){
+      if( (ap->type==SHIFT || ap->type==REDUCE) && ap->sp==lemp->wildcard ){
         usesWildcard = 1;
       }
       if( ap->type!=REDUCE ) continue;
-- 
2.43.0


From 59de4e91772c7412854cdc1c486578ac00e8940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:38 +0000
Subject: [PATCH 47/84] fix: lemon: a token that can be reduced by default is
 not used as its fallback

---
 lemon/lemon.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 327d255..28d4b25 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5615,6 +5615,27 @@ void ReportHeader(struct lemon *lemp)
   return;
 }
 
+/*
+** Return true if, with rule rbest as the default of state stp, a token whose
+** action is to reduce by rbest has a fallback with another action.
+*/
+PRIVATE int default_hidden_by_fallback(struct state *stp, struct rule *rbest){
+  struct action *ap, *ap2;
+  struct symbol *fb;
+
+  for(ap=stp->ap; ap; ap=ap->next){
+    if( ap->type!=REDUCE || ap->x.rp!=rbest ) continue;
+    for(fb=ap->sp->fallback; fb; fb=fb->fallback){
+      for(ap2=stp->ap; ap2; ap2=ap2->next){
+        if( ap2->sp!=fb ) continue;
+        if( ap2->type==SHIFT || ap2->type==ERROR
+         || (ap2->type==REDUCE && ap2->x.rp!=rbest) ) return 1;
+      }
+    }
+  }
+  return 0;
+}
+
 /* Reduce the size of the action tables, if possible, by making use
 ** of defaults.
 **
@@ -5664,6 +5685,11 @@ void CompressTables(struct lemon *lemp)
     */
     if( nbest<1 || usesWildcard ) continue;
 
+    /* A token that is left to the default is first tried as its fallback.
+    ** Keep the actions when that would find something else.
+    */
+    if( lemp->has_fallback && default_hidden_by_fallback(stp, rbest) ) continue;
+
 
     /* Combine matching REDUCE actions into a single default */
     for(ap=stp->ap; ap; ap=ap->next){
-- 
2.43.0


From f5c7b13dff4486b9ee8166da125bbc9b36a4160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:38 +0000
Subject: [PATCH 48/84] fix: lemon: a fallback of a fallback failed an
 assertion, and one that leads back to its token made the parser loop

---
 lemon/lemon.c  | 6 ++++++
 lemon/lempar.c | 1 -
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 28d4b25..25e4421 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2804,8 +2804,14 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->errorcnt++;
       }else{
         struct symbol *sp = Symbol_new(lem, x);
+        struct symbol *fb;
+        for(fb=psp->fallback; fb && fb!=sp; fb=fb->fallback){}
         if( psp->fallback==0 ){
           psp->fallback = sp;
+        }else if( fb==sp ){
+          ErrorMsg(psp->filename, psp->tokenlineno,
+            "The fallback of token %s leads back to itself", x);
+          psp->errorcnt++;
         }else if( sp->fallback ){
           ErrorMsg(psp->filename, psp->tokenlineno,
             "More than one fallback assigned to token %s", x);
diff --git a/lemon/lempar.c b/lemon/lempar.c
index 930541c..967e1a9 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -536,7 +536,6 @@ static YYACTIONTYPE yy_find_shift_action(
              yyTracePrompt, yyTokenName[iLookAhead], yyTokenName[iFallback]);
         }
 #endif
-        assert( yyFallback[iFallback]==0 ); /* Fallback loop must terminate */
         iLookAhead = iFallback;
         continue;
       }
-- 
2.43.0


From e4cc8af2ca2488d350259cbe0534dd0fd070c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:30 +0000
Subject: [PATCH 49/84] fix: lemon: ParseStackPeak did not count the symbols of
 empty rules, and failed an assertion

---
 lemon/lempar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 967e1a9..a9fac7f 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -918,10 +918,10 @@ void Parse(
       ** enough on the stack to push the LHS value */
       if( yyRuleInfoNRhs[yyruleno]==0 ){
 #ifdef YYTRACKMAXSTACKDEPTH
-        if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
+        if( (int)(yypParser->yytos - yypParser->yystack)+1>yypParser->yyhwm ){
           yypParser->yyhwm++;
           assert( yypParser->yyhwm ==
-                  (int)(yypParser->yytos - yypParser->yystack));
+                  (int)(yypParser->yytos - yypParser->yystack)+1);
         }
 #endif
 #if YYSTACKDEPTH>0 
-- 
2.43.0


From bd6c14ec18e300a36b56d1934466a805ebcf4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 50/84] fix: lemon: an empty %include or %code argument read
 the byte before it

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 25e4421..88ae72a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4097,7 +4097,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
-  if( str==0 ) return;
+  if( str==0 || str[0]==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
-- 
2.43.0


From 5025aca302c9e6e2692d778a9ac96011556be0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 51/84] fix: lemon: a comment or string not terminated in C
 code made the scanner run past the end of the file

---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 88ae72a..23a857f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3182,10 +3182,12 @@ void Parse(struct lemon *gp)
             prevc = c;
             cp++;
           }
+          if( c==0 ) break;
         }else if( c=='/' && cp[1]=='/' ){  /* Skip C++ style comments too */
           cp = &cp[2];
           while( (c= *cp)!=0 && c!='\n' ) cp++;
-          if( c ) lineno++;
+          if( c==0 ) break;
+          lineno++;
         }else if( c=='\'' || c=='\"' ){    /* String a character literals */
           int startchar, prevc;
           startchar = c;
@@ -3195,6 +3197,7 @@ void Parse(struct lemon *gp)
             if( prevc=='\\' ) prevc = 0;
             else              prevc = c;
           }
+          if( c==0 ) break;
         }
       }
       if( c==0 ){
-- 
2.43.0


From d7e97f720dd14a0af7a63b8e21805102e1c2441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 52/84] fix: lemon: the message about a string that is not
 terminated named line 0

---
 lemon/lemon.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 23a857f..6f0fd26 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3085,7 +3085,6 @@ void Parse(struct lemon *gp)
   int lineno;
   int c;
   char *cp, *nextcp;
-  int startline = 0;
 
   memset(&ps, '\0', sizeof(ps));
   ps.gp = gp;
@@ -3158,7 +3157,7 @@ void Parse(struct lemon *gp)
         cp++;
       }
       if( c==0 ){
-        ErrorMsg(ps.filename,startline,
+        ErrorMsg(ps.filename,ps.tokenlineno,
             "String starting on this line is not terminated before "
             "the end of the file.");
         ps.errorcnt++;
-- 
2.43.0


From 1503b1c6f56d35370644fff3abd906652a2a56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 53/84] fix: lemon: -S crashed when the .sql file could not be
 opened

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6f0fd26..ee280bf 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4726,6 +4726,7 @@ void ReportSQL(
   int b, i, j, first_symbol;
 
   sql = file_open(lemp, ".sql", "wb");
+  if( sql==0 ) return;
 
   fprintf(sql,
     "BEGIN;\n"
-- 
2.43.0


From a89a67576ef6d53f9a2d9bb3ced4011fbe56e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 54/84] fix: lemon: a rule for a token class crashed instead of
 being reported

---
 lemon/lemon.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ee280bf..d9a0ac6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2373,6 +2373,12 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->nrhs = 0;
         psp->lhsalias = 0;
         psp->state = WAITING_FOR_ARROW;
+        if( psp->lhs->type==MULTITERMINAL ){
+          ErrorMsg(psp->filename,psp->tokenlineno,
+            "The token class \"%s\" can not be the LHS of a rule.",x);
+          psp->errorcnt++;
+          psp->state = RESYNC_AFTER_RULE_ERROR;
+        }
       }else if( x[0]=='{' ){
         if( psp->prevrule==0 ){
           ErrorMsg(psp->filename,psp->tokenlineno,
-- 
2.43.0


From 02eac8919ec5f71f25c10907e2e46c711c76e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 55/84] fix: lemon: a start symbol without rules crashed
 instead of being reported

---
 lemon/lemon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d9a0ac6..c5063fb 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -963,7 +963,7 @@ void FindStates(struct lemon *lemp)
   /* Find the start symbol */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->rule==0 ){
       ErrorMsg(lemp->filename,0,
         "The specified start symbol \"%s\" is not "
         "in a nonterminal of the grammar.  \"%s\" will be used as the start "
@@ -1231,7 +1231,7 @@ void FindActions(struct lemon *lemp)
   /* Add the accepting token */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->rule==0 ){
       if( lemp->startRule==0 ){
         fprintf(stderr, "internal error on source line %d: no start rule\n",
                 __LINE__);
@@ -3368,7 +3368,7 @@ static struct symbol *
 get_start_symbol(struct lemon *lemp)
 {
     struct symbol *sp = lemp->start ? Symbol_find(lemp, lemp->start) : 0;
-    return sp ? sp : lemp->startRule->lhs;
+    return sp && sp->rule ? sp : lemp->startRule->lhs;
 }
 
 static int
-- 
2.43.0


From f65f9b54056a27f0719be1f720f1e8bcf9d679cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 56/84] fix: lemon: -u with a rule precedence mark crashed the
 SQL and grammar reports

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c5063fb..594fec3 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2421,9 +2421,10 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           "to follow the previous rule.");
         psp->errorcnt++;
       }else{
-        if(!psp->gp->ignorePrec)
+        if(!psp->gp->ignorePrec){
             psp->prevrule->precsym = Symbol_new(lem, x);
             psp->prevrule->precsym_decl = LEMON_TRUE;
+        }
       }
       psp->state = PRECEDENCE_MARK_2;
       break;
-- 
2.43.0


From d88ca47d11594a2d08793c8ae992a329db1d6063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 57/84] fix: lemon: a compound with a token class silently
 extended the class everywhere

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 594fec3..e480101 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2551,7 +2551,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         msp->subsym = (struct symbol **) realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, &x[1]);
-        if( ISLOWER(x[1]) || ISLOWER(msp->subsym[0]->name[0]) ){
+        if( ISLOWER(x[1]) || ISLOWER(msp->name[0]) ){
           ErrorMsg(psp->filename,psp->tokenlineno,
             "Cannot form a compound containing a non-terminal");
           psp->errorcnt++;
-- 
2.43.0


From 236c96631719cc86204bbe9d4946eb5caa834d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:57 +0000
Subject: [PATCH 58/84] fix: lemon: the message about a missing ")" after a RHS
 alias printed the alias of the LHS

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e480101..363d1cf 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2582,7 +2582,8 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->state = IN_RHS;
       }else{
         ErrorMsg(psp->filename,psp->tokenlineno,
-          "Missing \")\" following LHS alias name \"%s\".",psp->lhsalias);
+          "Missing \")\" following RHS alias name \"%s\".",
+          psp->alias[psp->nrhs-1]);
         psp->errorcnt++;
         psp->state = RESYNC_AFTER_RULE_ERROR;
       }
-- 
2.43.0


From f9945151ed9a4265a83bcefd2679d847f4e6540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 59/84] fix: lemon: a state without actions used a null pointer

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 363d1cf..a7ed661 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1252,7 +1252,7 @@ void FindActions(struct lemon *lemp)
     struct action *ap, *nap;
     stp = lemp->sorted[i];
     /* assert( stp->ap ); */
-    stp->ap = Action_sort(stp->ap);
+    if( stp->ap ) stp->ap = Action_sort(stp->ap);
     for(ap=stp->ap; ap && ap->next; ap=ap->next){
       for(nap=ap->next; nap && nap->sp==ap->sp; nap=nap->next){
          /* The two actions "ap" and "nap" have the same lookahead.
-- 
2.43.0


From c153efc13c49d5a09b37a423ac2ac80dce723073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:47 +0000
Subject: [PATCH 60/84] fix: lemon: a last rule or declaration without its end
 was silently ignored

---
 lemon/lemon.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a7ed661..3da69b7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3237,6 +3237,12 @@ void Parse(struct lemon *gp)
     cp = nextcp;
   }
   free(filebuf);                    /* Release the buffer after parsing */
+  if( ps.errorcnt==0 && ps.state!=INITIALIZE
+   && ps.state!=WAITING_FOR_DECL_OR_RULE ){
+    ErrorMsg(ps.filename,lineno,
+      "The last rule or declaration is not finished at the end of the file.");
+    ps.errorcnt++;
+  }
   gp->rule = ps.firstrule;
   gp->errorcnt = ps.errorcnt;
   gp->preccounter = ps.preccounter;
-- 
2.43.0


From 3c089872b874576b26693ea6c9ea5cd74fcaf524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:47 +0000
Subject: [PATCH 61/84] fix: lemon: a long name of the grammar file overran a
 buffer

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3da69b7..dbcb7ae 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4046,7 +4046,7 @@ PRIVATE void tplt_skip_header(FILE *in, int *lineno)
 ** a pointer to the opened file. */
 PRIVATE FILE *tplt_open(struct lemon *lemp)
 {
-  char buf[1000];
+  char *buf;
   FILE *in;
   char *tpltname;
   char *toFree = 0;
@@ -4070,6 +4070,8 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     return in;
   }
 
+  buf = (char *)malloc( lemonStrlen(lemp->filename) + 4 );
+  if( buf==0 ) memory_error();
   cp = strrchr(lemp->filename,'.');
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
@@ -4087,6 +4089,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't find the parser driver template file \"%s\".\n",
     lemp->templatename);
     lemp->errorcnt++;
+    free(buf);
     return 0;
   }
   in = fopen(tpltname,"rb");
@@ -4095,6 +4098,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     lemp->errorcnt++;
   }
   free(toFree);
+  free(buf);
   return in;
 }
 
-- 
2.43.0


From 086c869dfc5d9b5d758c8a23375515dabfd9f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 62/84] fix: lemon: the conditions of %if ignored the
 precedence of && over || and accepted malformed expressions

---
 lemon/lemon.c | 148 +++++++++++++++++++++-----------------------------
 1 file changed, 62 insertions(+), 86 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index dbcb7ae..1143e4c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2917,103 +2917,79 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
   }
 }
 
-/* The text in the input is part of the argument to an %ifdef or %ifndef.
-** Evaluate the text as a boolean expression.  Return true or false.
+/*
+** The parser of the boolean expressions of %if.  Each routine starts at
+** *pz, leaves *pz behind what it has read, and returns the value.  Where
+** there is a syntax error *pErr points to it.
 */
-static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
+#define PP_MAXDEPTH 1000
+static int pp_or(struct lemon *lem, char **pz, char **pErr, int depth);
+static int pp_term(struct lemon *lem, char **pz, char **pErr, int depth){
+  char *z = *pz;
   int neg = 0;
   int res = 0;
-  int okTerm = 1;
-  int i;
-  for(i=0; z[i]!=0; i++){
-    if( ISSPACE(z[i]) ) continue;
-    if( z[i]=='!' ){
-      if( !okTerm ) goto pp_syntax_error;
-      neg = !neg;
-      continue;
-    }
-    if( z[i]=='|' && z[i+1]=='|' ){
-      if( okTerm ) goto pp_syntax_error;
-      if( res ) return 1;
-      i++;
-      okTerm = 1;
-      continue;
-    }
-    if( z[i]=='&' && z[i+1]=='&' ){
-      if( okTerm ) goto pp_syntax_error;
-      if( !res ) return 0;
-      i++;
-      okTerm = 1;
-      continue;
-    }
-    if( z[i]=='(' ){
-      int k;
-      int n = 1;
-      if( !okTerm ) goto pp_syntax_error;
-      for(k=i+1; z[k]; k++){
-        if( z[k]==')' ){
-          n--;
-          if( n==0 ){
-            z[k] = 0;
-            res = eval_preprocessor_boolean(lem, &z[i+1], -1);
-            z[k] = ')';
-            if( res<0 ){
-              i = i-res;
-              goto pp_syntax_error;
-            }
-            i = k;
-            break;
-          }
-        }else if( z[k]=='(' ){
-          n++;
-        }else if( z[k]==0 ){
-          i = k;
-          goto pp_syntax_error;
-        }
-      }
-      if( neg ){
-        res = !res;
-        neg = 0;
-      }
-      okTerm = 0;
-      continue;
-    }
-    if( ISALPHA(z[i]) ){
-      int j, k, n;
-      if( !okTerm ) goto pp_syntax_error;
-      for(k=i+1; ISALNUM(z[k]) || z[k]=='_'; k++){}
-      n = k - i;
-      res = 0;
-      for(j=0; j<lem->nDefine; j++){
-        if( strncmp(lem->azDefine[j],&z[i],n)==0 && lem->azDefine[j][n]==0 ){
-          if( !lem->bDefineUsed[j] ){
-            lem->bDefineUsed[j] = 1;
-            lem->nDefineUsed++;
-          }
-          res = 1;
-          break;
+  int i, n;
+  for(; ISSPACE(*z) || *z=='!'; z++){
+    if( *z=='!' ) neg = !neg;
+  }
+  if( *z=='(' && depth<PP_MAXDEPTH ){
+    z++;
+    res = pp_or(lem, &z, pErr, depth+1);
+    if( *z==')' ){
+      z++;
+    }else if( *pErr==0 ){
+      *pErr = z;
+    }
+  }else if( ISALPHA(*z) ){
+    for(n=1; ISALNUM(z[n]) || z[n]=='_'; n++){}
+    for(i=0; i<lem->nDefine; i++){
+      if( strncmp(lem->azDefine[i],z,n)==0 && lem->azDefine[i][n]==0 ){
+        if( !lem->bDefineUsed[i] ){
+          lem->bDefineUsed[i] = 1;
+          lem->nDefineUsed++;
         }
+        res = 1;
+        break;
       }
-      i = k-1;
-      if( neg ){
-        res = !res;
-        neg = 0;
-      }
-      okTerm = 0;
-      continue;
     }
-    goto pp_syntax_error;
+    z += n;
+  }else if( *pErr==0 ){
+    *pErr = z;
+  }
+  while( ISSPACE(*z) ) z++;
+  *pz = z;
+  return neg ? !res : res;
+}
+static int pp_and(struct lemon *lem, char **pz, char **pErr, int depth){
+  int res = pp_term(lem, pz, pErr, depth);
+  while( *pErr==0 && (*pz)[0]=='&' && (*pz)[1]=='&' ){
+    *pz += 2;
+    res &= pp_term(lem, pz, pErr, depth);
   }
   return res;
-
-pp_syntax_error:
-  if( lineno>0 ){
+}
+static int pp_or(struct lemon *lem, char **pz, char **pErr, int depth){
+  int res = pp_and(lem, pz, pErr, depth);
+  while( *pErr==0 && (*pz)[0]=='|' && (*pz)[1]=='|' ){
+    *pz += 2;
+    res |= pp_and(lem, pz, pErr, depth);
+  }
+  return res;
+}
+/* The text in the input is part of the argument to an %ifdef or %ifndef.
+** Evaluate the text as a boolean expression.  Return true or false.
+*/
+static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
+  char *zEnd = z;
+  char *zErr = 0;
+  int res = pp_or(lem, &zEnd, &zErr, 0);
+  if( zErr==0 && *zEnd ) zErr = zEnd;
+  if( zErr ){
     fprintf(stderr, "%%if syntax error on line %d.\n", lineno);
-    fprintf(stderr, "  %.*s <-- syntax error here\n", i+1, z);
+    fprintf(stderr, "  %.*s <-- syntax error here\n", (int)(zErr-z)+1, z);
     exit(1);
-  }else{
-    return -(i+1);
   }
+  return res;
 }
 
 /* Run the preprocessor over the input file text.  The global variables
-- 
2.43.0


From 1c7de449413df03c380e8c7a39838ed956472059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 63/84] fix: lemon: conditionals without %endif or %ifdef, and
 a second %else, were accepted; a tab after %if or the end of the file after
 %endif were not

---
 lemon/lemon.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 1143e4c..aad9c9b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3002,11 +3002,17 @@ static void preprocess_input(struct lemon *lem, char *z){
   int exclude = 0;
   int start = 0;
   int lineno = 1;
-  int start_lineno = 1;
+  int depth = 0;        /* Number of open conditionals */
+  int *open = 0;        /* Their line numbers, negative after the %else */
   for(i=0; z[i]; i++){
     if( z[i]=='\n' ) lineno++;
     if( z[i]!='%' || (i>0 && z[i-1]!='\n') ) continue;
-    if( strncmp(&z[i],"%endif",6)==0 && ISSPACE(z[i+6]) ){
+    if( strncmp(&z[i],"%endif",6)==0 && (z[i+6]==0 || ISSPACE(z[i+6])) ){
+      if( depth==0 ){
+        fprintf(stderr,"%%endif without %%ifdef on line %d\n", lineno);
+        exit(1);
+      }
+      depth--;
       if( exclude ){
         exclude--;
         if( exclude==0 ){
@@ -3014,19 +3020,26 @@ static void preprocess_input(struct lemon *lem, char *z){
         }
       }
       for(j=i; z[j] && z[j]!='\n'; j++) z[j] = ' ';
-    }else if( strncmp(&z[i],"%else",5)==0 && ISSPACE(z[i+5]) ){
+    }else if( strncmp(&z[i],"%else",5)==0 && (z[i+5]==0 || ISSPACE(z[i+5])) ){
+      if( depth==0 || open[depth-1]<0 ){
+        fprintf(stderr,"%%else without %%ifdef on line %d\n", lineno);
+        exit(1);
+      }
+      open[depth-1] = -open[depth-1];
       if( exclude==1){
         exclude = 0;
         for(j=start; j<i; j++) if( z[j]!='\n' ) z[j] = ' ';
       }else if( exclude==0 ){
         exclude = 1;
         start = i;
-        start_lineno = lineno;
       }
       for(j=i; z[j] && z[j]!='\n'; j++) z[j] = ' ';
-    }else if( strncmp(&z[i],"%ifdef ",7)==0
-          || strncmp(&z[i],"%if ",4)==0
-          || strncmp(&z[i],"%ifndef ",8)==0 ){
+    }else if( (strncmp(&z[i],"%ifdef",6)==0 && ISSPACE(z[i+6]))
+          || (strncmp(&z[i],"%if",3)==0 && ISSPACE(z[i+3]))
+          || (strncmp(&z[i],"%ifndef",7)==0 && ISSPACE(z[i+7])) ){
+      open = (int*)realloc(open, sizeof(open[0])*(depth+1));
+      if( open==0 ) memory_error();
+      open[depth++] = lineno;
       if( exclude ){
         exclude++;
       }else{
@@ -3041,18 +3054,17 @@ static void preprocess_input(struct lemon *lem, char *z){
         exclude = eval_preprocessor_boolean(lem, &z[iBool], lineno);
         z[j] = k;
         if( !isNot ) exclude = !exclude;
-        if( exclude ){
-          start = i;
-          start_lineno = lineno;
-        }
+        if( exclude ) start = i;
       }
       for(j=i; z[j] && z[j]!='\n'; j++) z[j] = ' ';
     }
   }
-  if( exclude ){
-    fprintf(stderr,"unterminated %%ifdef starting on line %d\n", start_lineno);
+  if( depth>0 ){
+    fprintf(stderr,"unterminated %%ifdef starting on line %d\n",
+      open[depth-1]<0 ? -open[depth-1] : open[depth-1]);
     exit(1);
   }
+  free(open);
 }
 
 /* In spite of its name, this function is really a scanner.  It read
-- 
2.43.0


From 2842f4065b2d371c85aa76eba53c98950c328398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 64/84] fix: lemon: the SQL export did not quote %stack_size,
 and its grammar had a "." behind it that lemon rejects

---
 lemon/lemon.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index aad9c9b..70b2108 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4862,10 +4862,13 @@ void ReportSQL(
   );
 
   if(lemp->stacksize) {
-    fprintf(sql,
-      "UPDATE directives SET stack_size='%s';\n",
-          lemp->stacksize
-    );
+    const char *z;
+    fprintf(sql, "UPDATE directives SET stack_size='");
+    for(z=lemp->stacksize; *z; z++){
+      if( *z=='\'' ) putc('\'', sql);
+      putc(*z, sql);
+    }
+    fprintf(sql, "';\n");
   }
 
   if(lemp->wildcard) {
@@ -4966,9 +4969,9 @@ void ReportSQL(
     "SELECT * FROM prec_view\n"
     "UNION ALL\n"
     "SELECT '\n"
-    "%%stack_size ' || stack_size || ' .\n"
+    "%%stack_size {' || stack_size || '}\n"
     "'\n"
-    "FROM directives\n"
+    "FROM directives WHERE stack_size IS NOT NULL\n"
     "UNION ALL\n"
     "SELECT '\n"
     "%%wildcard ' || s.name || ' .\n"
-- 
2.43.0


From 4840675eb8f71181775133471dbd92fc79706fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 65/84] fix: lemon: the grammar of the SQL export gave all
 tokens one fallback

---
 lemon/lemon.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 70b2108..c5101b6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4950,9 +4950,10 @@ void ReportSQL(
     "  ' || group_concat(name || (CASE WHEN (cnt %% 6) = 0 THEN '\n"
     "  ' ELSE ' ' END), '') || ' .\n"
     "  ') AS val FROM (\n"
-    "  SELECT sf.name AS fb, row_number() OVER (ORDER BY s.id) AS cnt, s.name\n"
+    "  SELECT sf.id AS fbid, sf.name AS fb,\n"
+    "    row_number() OVER (PARTITION BY sf.id ORDER BY s.id) AS cnt, s.name\n"
     "  FROM symbol s JOIN symbol sf ON s.fallback = sf.id\n"
-    ") t;\n"
+    ") t GROUP BY fbid;\n"
     "CREATE VIEW prec_view AS\n"
     "WITH prec(id, name) AS (VALUES('L','%%left'),('R','%%right'),('N','%%nonassoc'),('P','%%precedence'))\n"
     "SELECT prec.name || ' ' || group_concat(s.name, ' ') || ' .'\n"
-- 
2.43.0


From a7a746a819a08fc6e467c9b14ae6772c0459c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 66/84] fix: lemon: the grammar of the SQL export lost
 %yacc_prec

---
 lemon/lemon.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c5101b6..89628a6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4851,7 +4851,8 @@ void ReportSQL(
     "  id INTEGER PRIMARY KEY CHECK(id = 1),\n"
     "  stack_size TEXT,\n"
     "  start_symbol INTEGER REFERENCES symbol,\n"
-    "  wildcard INTEGER REFERENCES symbol\n"
+    "  wildcard INTEGER REFERENCES symbol,\n"
+    "  yacc_prec BOOLEAN NOT NULL DEFAULT FALSE\n"
     ");\n"
     "INSERT INTO directives(id) values(1);\n"
   );
@@ -4878,6 +4879,10 @@ void ReportSQL(
     );
   }
 
+  if(lemp->yaccPrec) {
+    fprintf(sql, "UPDATE directives SET yacc_prec=TRUE;\n");
+  }
+
   fprintf(sql,
     "CREATE TABLE rulerhs(\n"
     "  id INTEGER PRIMARY KEY,"
@@ -4980,6 +4985,11 @@ void ReportSQL(
     "FROM directives AS d join symbol AS s ON d.wildcard=s.id\n"
     "UNION ALL\n"
     "SELECT '\n"
+    "%%yacc_prec\n"
+    "'\n"
+    "FROM directives WHERE yacc_prec\n"
+    "UNION ALL\n"
+    "SELECT '\n"
     "%%start_symbol ' || s.name || '\n"
     "'\n"
     "FROM directives AS d join symbol AS s ON d.start_symbol=s.id\n"
-- 
2.43.0


From 00fe68ffc09f8467e4f9a4fac9403ef4293dd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 67/84] fix: lemon: the message about a nonterminal without
 rules named line 0 or the line of the code

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 89628a6..d93bcf6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1471,7 +1471,7 @@ void Configlist_closure(struct lemon *lemp)
     sp = rp->rhs[dot];
     if( sp->type==NONTERMINAL ){
       if( sp->rule==0 && sp!=lemp->errsym ){
-        ErrorMsg(lemp->filename,rp->line,"Nonterminal \"%s\" has no rules.",
+        ErrorMsg(lemp->filename,rp->ruleline,"Nonterminal \"%s\" has no rules.",
           sp->name);
         lemp->errorcnt++;
       }
-- 
2.43.0


From 35f41cffbaf3489107ce6c3aaebcca4f416f630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 68/84] fix: lemon: the #line directives naming the generated
 parser were off by one, or by the skipped template header

---
 lemon/lemon.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d93bcf6..46bae87 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4022,11 +4022,11 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
 
 /* Skip forward past the header of the template file to the first "%%"
 */
-PRIVATE void tplt_skip_header(FILE *in, int *lineno)
+PRIVATE void tplt_skip_header(FILE *in)
 {
   char line[LINESIZE];
   while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
-    (*lineno)++;
+    /* Nothing is written, the line number stays what it is */
   }
 }
 
@@ -5064,7 +5064,7 @@ void ReportTable(
     }
   }
   if( lemp->include[0]=='/' ){
-    tplt_skip_header(in,&lineno);
+    tplt_skip_header(in);
   }else{
     tplt_xfer(lemp->name,in,out,&lineno);
   }
@@ -5084,7 +5084,7 @@ void ReportTable(
   if( mhflag ){
     fprintf(out,"#if INTERFACE\n"); lineno++;
   }else{
-    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name);
+    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name); lineno++;
   }
   for(i=1; i<lemp->nterminal; i++){
     fprintf(out,"#define %s%-30s %2d\n",prefix,lemp->symbols[i]->name,i);
-- 
2.43.0


From 7ec574230a12aecf6729357f24bfbe1508bdd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 69/84] fix: lemon: a template line of a thousand characters
 counted as two

---
 lemon/lemon.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 46bae87..7b52a12 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4001,8 +4001,10 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
 {
   int i, iStart;
   char line[LINESIZE];
-  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
-    (*lineno)++;
+  int bol = 1;   /* At the beginning of a line: a long one takes several reads */
+  while( fgets(line,LINESIZE,in) && (!bol || line[0]!='%' || line[1]!='%') ){
+    bol = strchr(line,'\n')!=0;
+    if( bol ) (*lineno)++;
     iStart = 0;
     if( name ){
       for(i=0; line[i]; i++){
@@ -4025,8 +4027,10 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
 PRIVATE void tplt_skip_header(FILE *in)
 {
   char line[LINESIZE];
-  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
+  int bol = 1;
+  while( fgets(line,LINESIZE,in) && (!bol || line[0]!='%' || line[1]!='%') ){
     /* Nothing is written, the line number stays what it is */
+    bol = strchr(line,'\n')!=0;
   }
 }
 
-- 
2.43.0


From 1140cd129ac35a1bd19b1a334c34034fdfc6d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 70/84] fix: lemon: -l joined the last line of a code block
 with the first line of the next

---
 lemon/lemon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 7b52a12..4017885 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2773,10 +2773,10 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         }
         *psp->declargslot = (char *) realloc(*psp->declargslot, n);
         zBuf = *psp->declargslot + nOld;
+        if( psp->insertLineMacro && nOld && zBuf[-1]!='\n' ){
+          *(zBuf++) = '\n';
+        }
         if( addLineMacro ){
-          if( nOld && zBuf[-1]!='\n' ){
-            *(zBuf++) = '\n';
-          }
           memcpy(zBuf, zLine, nLine);
           zBuf += nLine;
           *(zBuf++) = '"';
-- 
2.43.0


From 60df8ec2d590322b0dfe2b021d39c66e7cbf3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 71/84] fix: lemon: a quote in the name of the grammar file
 ended the name in the #line directives

---
 lemon/lemon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4017885..6f6c4c7 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2765,7 +2765,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
                        && (psp->decllinenoslot==0 || psp->decllinenoslot[0]!=0);
         if( addLineMacro ){
           for(z=psp->filename, nBack=0; *z; z++){
-            if( *z=='\\' ) nBack++;
+            if( *z=='\\' || *z=='"' ) nBack++;
           }
           lemon_sprintf(zLine, "#line %d ", psp->tokenlineno);
           nLine = lemonStrlen(zLine);
@@ -2781,7 +2781,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           zBuf += nLine;
           *(zBuf++) = '"';
           for(z=psp->filename; *z; z++){
-            if( *z=='\\' ){
+            if( *z=='\\' || *z=='"' ){
               *(zBuf++) = '\\';
             }
             *(zBuf++) = *z;
@@ -4099,7 +4099,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 {
   fprintf(out,"#line %d \"",lineno);
   while( *filename ){
-    if( *filename == '\\' ) putc('\\',out);
+    if( *filename == '\\' || *filename == '"' ) putc('\\',out);
     putc(*filename,out);
     filename++;
   }
-- 
2.43.0


From 607d1b8d5935060fb791573711cc1a7032b51a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 72/84] fix: lemon: the template of a grammar without an
 extension was looked for by the dot of a directory

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6f6c4c7..b40da8b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4065,7 +4065,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
   buf = (char *)malloc( lemonStrlen(lemp->filename) + 4 );
   if( buf==0 ) memory_error();
   cp = strrchr(lemp->filename,'.');
-  if( cp ){
+  if( cp && strchr(cp,'/')==0 ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
   }else{
     lemon_sprintf(buf,"%s.lt",lemp->filename);
-- 
2.43.0


From 9f3409cbd3c903093881bb145d5920a1f47f1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 73/84] fix: lemon: with a header from before, long names of
 tokens overran a buffer, and an unchanged header was always rewritten

---
 lemon/lemon.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b40da8b..376d809 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5613,38 +5613,42 @@ void ReportHeader(struct lemon *lemp)
 {
   FILE *out, *in;
   const char *prefix;
-  char line[LINESIZE];
-  char pattern[LINESIZE];
-  int i;
+  char *text;
+  int i, n, sz;
 
   if( lemp->tokenprefix ) prefix = lemp->tokenprefix;
   else                    prefix = "";
+  /* The text of the header */
+  sz = 100 + 2*lemonStrlen(prefix);
+  for(i=1; i<lemp->nterminal; i++){
+    sz += 30 + lemonStrlen(prefix) + lemonStrlen(lemp->symbols[i]->name);
+  }
+  text = (char*)malloc( sz );
+  if( text==0 ) memory_error();
+  n = lemon_sprintf(text,"enum %sLemonEnum {\n",prefix);
+  for(i=1; i<lemp->nterminal; i++){
+    n += lemon_sprintf(&text[n]," %s%s = %3d,\n",
+                       prefix,lemp->symbols[i]->name,i);
+  }
+  n += lemon_sprintf(&text[n]," %s%s = %3d\n};\n",
+                     prefix,"LEMON_LAST_TOKEN",i);
   in = file_open(lemp,".h","rb");
   if( in ){
-    int nextChar;
-    for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
-      lemon_sprintf(pattern,"#define %s%-30s %3d\n",
-                    prefix,lemp->symbols[i]->name,i);
-      if( strcmp(line,pattern) ) break;
-    }
-    nextChar = fgetc(in);
-    fclose(in);
-    if( i==lemp->nterminal && nextChar==EOF ){
+    for(i=0; i<n && fgetc(in)==(text[i]&0xff); i++){}
+    if( i==n && fgetc(in)==EOF ){
       /* No change in the file.  Don't rewrite it. */
+      fclose(in);
+      free(text);
       return;
     }
+    fclose(in);
   }
   out = file_open(lemp,".h","wb");
   if( out ){
-    fprintf(out,"enum %sLemonEnum {\n",prefix);
-    for(i=1; i<lemp->nterminal; i++){
-      //fprintf(out,"#define %s%-30s %3d\n",prefix,lemp->symbols[i]->name,i);
-      fprintf(out," %s%s = %3d,\n",prefix,lemp->symbols[i]->name,i);
-    }
-    //fprintf(out,"#define %s%-30s %3d\n", prefix, "LEMON_LAST_TOKEN", i);
-    fprintf(out," %s%s = %3d\n};\n", prefix, "LEMON_LAST_TOKEN", i);
+    fwrite(text,1,n,out);
     fclose(out);
   }
+  free(text);
   return;
 }
 
-- 
2.43.0


From a6bb14a1a878b9c2c872db9c48cb678b2b45e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 74/84] fix: lemon: a full disk or another error writing an
 output file went unnoticed

---
 lemon/lemon.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 376d809..d05a3e2 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -225,6 +225,7 @@ void ReportSQL(struct lemon *);
 void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
+void file_close(struct lemon *, FILE *, const char *);
 void CompressTables(struct lemon *);
 void ResortStates(struct lemon *, int);
 
@@ -1760,6 +1761,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
+  if( lem.printPreprocessed ) file_close(&lem, stdout, "stdout");
   if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
@@ -1872,6 +1874,7 @@ int main(int argc, char **argv){
     stats_line("lookahead table entries", lem.nlookaheadtab);
     stats_line("total table size (bytes)", lem.tablesize);
   }
+  file_close(&lem, stdout, "stdout");
   int nexpect = lem.expect ? atoi(lem.expect) : 0;
 
   if( lem.nconflict != nexpect ){
@@ -3358,6 +3361,15 @@ PRIVATE FILE *file_open(
   return fp;
 }
 
+/* Close an output file, all of which must have been written */
+void file_close(struct lemon *lemp, FILE *fp, const char *zName){
+  int bad = ferror(fp);
+  if( (fp==stdout ? fflush(fp) : fclose(fp))!=0 || bad ){
+    fprintf(stderr,"Error writing file \"%s\".\n",zName);
+    lemp->errorcnt++;
+  }
+}
+
 /* The start symbol: the one of %start_symbol, or else the one of the
 ** first rule */
 static struct symbol *
@@ -3907,7 +3919,7 @@ void ReportOutput(struct lemon *lemp)
     }
     fprintf(fp,"\n");
   }
-  fclose(fp);
+  file_close(lemp,fp,lemp->outname);
   return;
 }
 
@@ -5003,7 +5015,7 @@ void ReportSQL(
     "COMMIT;\n"
     "--select * from grammar_view;\n"
   );
-  fclose(sql);
+  file_close(lemp,sql,lemp->outname);
 }
 
 /* Generate C source code for the parser */
@@ -5604,7 +5616,7 @@ void ReportTable(
 
   acttab_free(pActtab);
   fclose(in);
-  fclose(out);
+  file_close(lemp,out,lemp->outname);
   return;
 }
 
@@ -5646,7 +5658,7 @@ void ReportHeader(struct lemon *lemp)
   out = file_open(lemp,".h","wb");
   if( out ){
     fwrite(text,1,n,out);
-    fclose(out);
+    file_close(lemp,out,lemp->outname);
   }
   free(text);
   return;
-- 
2.43.0


From 2608833e26b2f020905018997670101b3b4ef7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 75/84] fix: lemon: a %type of several lines put the #line
 directives naming the generated parser off

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d05a3e2..afbab17 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4650,6 +4650,7 @@ void print_stack_union(
   for(i=0; i<arraysize; i++){
     if( types[i]==0 ) continue;
     fprintf(out,"  %s yy%d;\n",types[i],i+1); lineno++;
+    for(j=0; types[i][j]; j++) if( types[i][j]=='\n' ) lineno++;
     free(types[i]);
   }
   if( lemp->errsym && lemp->errsym->useCnt ){
-- 
2.43.0


From d4928ffce367706d8ac5de4b97965a8b4bcb530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:51 +0000
Subject: [PATCH 76/84] fix: lemon: %extra_argument, %extra_context,
 %token_type or %stack_size with a newline in its braces did not compile

---
 lemon/lemon.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index afbab17..f36326d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5019,6 +5019,12 @@ void ReportSQL(
   file_close(lemp,sql,lemp->outname);
 }
 
+/* The argument of a directive that becomes the text of a macro: newlines
+** would end that */
+PRIVATE void on_one_line(char *z){
+  for(; z && *z; z++) if( *z=='\n' || *z=='\r' ) *z = ' ';
+}
+
 /* Generate C source code for the parser */
 void ReportTable(
   struct lemon *lemp,
@@ -5049,6 +5055,10 @@ void ReportTable(
 
   in = tplt_open(lemp);
   if( in==0 ) return;
+  on_one_line(lemp->arg);
+  on_one_line(lemp->ctx);
+  on_one_line(lemp->tokentype);
+  on_one_line(lemp->stacksize);
   out = file_open(lemp,".c","wb");
   if( out==0 ){
     fclose(in);
-- 
2.43.0


From 7fc09b424e1b8c9adb2234728a40c84a52357a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 77/84] fix: a #line directive inside code was dropped instead
 of being kept with the code

---
 byacc/defs.h   |  1 +
 byacc/reader.c | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index 2f3476a..6bb3721 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -580,6 +580,7 @@ typedef struct byacc_t {
     char saw_eof;
     size_t linesize; /* length of current input-line */
     SAVE_LINE save_area;
+    int in_code;	/* copying code: a #line directive is part of it */
     int must_save;	/* request > 0, triggered < 0, inactive 0 */
 
     bucket *goal;
diff --git a/byacc/reader.c b/byacc/reader.c
index 233210f..150d127 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -342,7 +342,7 @@ get_line(byacc_t* S)
 	}
 	S->line[i] = '\0';
     }
-    while (line_directive(S));
+    while (line_directive(S) && !S->in_code);
     S->cptr = S->line;
     return;
 }
@@ -2081,15 +2081,21 @@ read_declarations(byacc_t* S)
 	    break;
 
 	case XCODE:
+	    S->in_code = 1;
 	    copy_code(S);
+	    S->in_code = 0;
 	    break;
 
 	case TEXT:
+	    S->in_code = 1;
 	    copy_text(S);
+	    S->in_code = 0;
 	    break;
 
 	case UNION:
+	    S->in_code = 1;
 	    copy_union(S);
+	    S->in_code = 0;
 	    break;
 
 	case TOKEN:
@@ -2664,14 +2670,18 @@ advance_to_start(byacc_t* S)
 	switch (keyword(S))
 	{
 	case XCODE:
+	    S->in_code = 1;
 	    copy_code(S);
+	    S->in_code = 0;
 	    break;
 
 	case MARK:
 	    no_grammar(S);
 
 	case TEXT:
+	    S->in_code = 1;
 	    copy_text(S);
+	    S->in_code = 0;
 	    break;
 
 	case START:
@@ -3207,7 +3217,9 @@ copy_action(byacc_t* S)
 	{
 	    --depth;
 	    putc(R_CURL, f);
+	    S->in_code = 0;	/* what follows need not be code */
 	    c = nextc(S);
+	    S->in_code = 1;
 	    if (c == L_BRAC && !haveyyval)
 	    {
 		goto loop;
@@ -3267,7 +3279,9 @@ copy_action(byacc_t* S)
 #if defined(YYBTYACC)
 	if (S->backtrack)
 	{
+	    S->in_code = 0;	/* what follows need not be code */
 	    c = nextc(S);
+	    S->in_code = 1;
 	    if (c == L_BRAC && !haveyyval)
 	    {
 		S->trialaction = 1;
@@ -3431,7 +3445,9 @@ copy_initial_action(byacc_t* S)
 {
     struct ainfo a;
 
+    S->in_code = 1;
     S->initial_action = get_code(S, &a, "yyloc");
+    S->in_code = 0;
     end_ainfo(a);
 }
 
@@ -3442,7 +3458,9 @@ copy_destructor(byacc_t* S)
     struct ainfo a;
     bucket *bp;
 
+    S->in_code = 1;
     code_text = get_code(S, &a, "(*loc)");
+    S->in_code = 0;
 
     for (;;)
     {
@@ -3687,7 +3705,9 @@ read_grammar(byacc_t* S)
 #endif
 	    )
 	{
+	    S->in_code = 1;
 	    copy_action(S);
+	    S->in_code = 0;
 	}
 	else if (c == '|')
 	{
-- 
2.43.0


From c2e72cf316b77217a1a72c177fba46a0f36fdf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 78/84] fix: code of a trial action that begins on a later line
 than the block before it was attributed to the wrong line

---
 byacc/reader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 150d127..a2a6bc9 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2959,6 +2959,7 @@ copy_action(byacc_t* S)
     int depth;
 #if defined(YYBTYACC)
     int haveyyval = 0;
+    int last;
 #endif
     char *tag;
     FILE *f = S->action_file;
@@ -3217,11 +3218,17 @@ copy_action(byacc_t* S)
 	{
 	    --depth;
 	    putc(R_CURL, f);
+	    last = S->lineno;
 	    S->in_code = 0;	/* what follows need not be code */
 	    c = nextc(S);
 	    S->in_code = 1;
 	    if (c == L_BRAC && !haveyyval)
 	    {
+		if (S->lineno != last)
+		{
+		    putc('\n', f);
+		    fprintf_lineno(f, S->lineno, S->input_file_name);
+		}
 		goto loop;
 	    }
 	    if (c == L_CURL && !haveyyval)
@@ -3279,11 +3286,17 @@ copy_action(byacc_t* S)
 #if defined(YYBTYACC)
 	if (S->backtrack)
 	{
+	    last = S->lineno;
 	    S->in_code = 0;	/* what follows need not be code */
 	    c = nextc(S);
 	    S->in_code = 1;
 	    if (c == L_BRAC && !haveyyval)
 	    {
+		if (S->lineno != last)
+		{
+		    putc('\n', f);
+		    fprintf_lineno(f, S->lineno, S->input_file_name);
+		}
 		S->trialaction = 1;
 		goto loop;
 	    }
-- 
2.43.0


From 2641254d2121d6610a51e424df45c71192dcdc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:20 +0000
Subject: [PATCH 79/84] fix: with -r every %ident made the #line directives of
 the code file wrong by one line

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index a2a6bc9..ce8605e 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -598,7 +598,8 @@ copy_ident(byacc_t* S)
 	unexpected_EOF(S);
     if (c != '"')
 	syntax_error(S, S->lineno, S->line, S->cptr);
-    ++S->outline;
+    if (!S->rflag)
+	++S->outline;
     fprintf(f, "#ident \"");
     for (;;)
     {
-- 
2.43.0


From 09fcdd7e0fdca66843031a7fdffa4eaa61238cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:31 +0000
Subject: [PATCH 80/84] fix: %parse-param and %lex-param wrote past their
 buffer when a comment in them continued on a longer line

---
 byacc/reader.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index ce8605e..7c6355a 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1321,6 +1321,16 @@ copy_param(byacc_t* S, int k)
 	    NO_SPACE(tmp);
 	    buf = tmp;
 	}
+	if ((size_t)(i + 3) > buf_size)
+	{
+	    /* a comment may have continued on a longer line */
+	    char *tmp;
+
+	    buf_size += (size_t)S->linesize;
+	    tmp = TREALLOC(char, buf, buf_size);
+	    NO_SPACE(tmp);
+	    buf = tmp;
+	}
 	if (curly)
 	{
 	    if ((state == 2) && (c == L_CURL))
-- 
2.43.0


From afaf3721b5f6ad54a29571e63221790ea0f4d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:32 +0000
Subject: [PATCH 81/84] fix: lemon: ParseCoverage counted syntax errors made by
 precedences among the missed actions

---
 lemon/lempar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index a9fac7f..cabe40b 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -488,6 +488,7 @@ int ParseCoverage(FILE *out){
     i = yy_shift_ofst[stateno];
     for(iLookAhead=0; iLookAhead<YYNTOKEN; iLookAhead++){
       if( yy_lookahead[i+iLookAhead]!=iLookAhead ) continue;
+      if( yy_action[i+iLookAhead]==YY_ERROR_ACTION ) continue;
       if( yycoverage[stateno][iLookAhead]==0 ) nMissed++;
       if( out ){
         fprintf(out,"State %d lookahead %s %s\n", stateno,
-- 
2.43.0


From 56e081fa5daa9560f4676d0ace72cd1d2def3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:10 +0000
Subject: [PATCH 82/84] fix: long options whose value has "--" in it

After a long option was rewritten to its short form, the leftover of the
original text was tested for "--": --output=a--xy.c was an invalid option.
---
 byacc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/main.c b/byacc/main.c
index 6f4dc84..b29f806 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -416,7 +416,7 @@ getargs(byacc_t* S, int argc, char *argv[])
 		    break;
 		}
 	    }
-	    if (!strncmp(a, "--", 2))
+	    if (lc == SIZEOF(long_opts))	/* "a" may be past the new text */
 		invalid_option(a, S);
 	}
     }
-- 
2.43.0


From 916d9ae38aeebfc49a354b3a36252da8d9f94991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:12 +0000
Subject: [PATCH 83/84] fix: lemon: an ignored option written as a switch (I=x)
 crashed

---
 lemon/lemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f36326d..0262f6b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2130,6 +2130,8 @@ static int handleswitch(struct lemon *lem, int i, FILE *err)
       errline(lem, i,0,err);
     }
     errcnt++;
+  }else if( lem->op[j].arg==0 ){
+    /* Ignore this option */
   }else{
     cp++;
     switch( lem->op[j].type ){
-- 
2.43.0


From 3ab5498e3dd300a4cd23a4bc763a09b1488e2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:16 +0000
Subject: [PATCH 84/84] fix: names of arguments counted as tags: no default
 YYSTYPE without %union

---
 byacc/defs.h   |  2 ++
 byacc/reader.c | 66 ++++++++++++++++++++++++++++++++------------------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index 6bb3721..1a43d58 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -576,6 +576,8 @@ typedef struct byacc_t {
 
     int tagmax, havetags;
     char **tag_table;
+    int nargnames, argnamemax;	/* names of arguments are not tags */
+    char **argname_table;
 
     char saw_eof;
     size_t linesize; /* length of current input-line */
diff --git a/byacc/reader.c b/byacc/reader.c
index 7c6355a..43cd1a8 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1674,37 +1674,43 @@ get_number(byacc_t* S)
 }
 
 static char *
-cache_tag(byacc_t* S, char *tag, size_t len)
+cache_string(byacc_t* S, char ***table, int *count, int *max,
+	     char *text, size_t len)
 {
     int i;
     char *s;
 
-    for (i = 0; i < S->ntags; ++i)
+    for (i = 0; i < *count; ++i)
     {
-	if (strncmp(tag, S->tag_table[i], len) == 0 &&
-	    S->tag_table[i][len] == NUL)
-	    return (S->tag_table[i]);
+	if (strncmp(text, (*table)[i], len) == 0 &&
+	    (*table)[i][len] == NUL)
+	    return ((*table)[i]);
     }
 
-    if (S->ntags >= S->tagmax)
+    if (*count >= *max)
     {
-	S->tagmax += 16;
-	S->tag_table =
-	    (S->tag_table
-	     ? TREALLOC(char *, S->tag_table, S->tagmax)
-	     : TMALLOC(char *, S->tagmax));
-	NO_SPACE(S->tag_table);
+	*max += 16;
+	*table = (*table
+		  ? TREALLOC(char *, *table, *max)
+		  : TMALLOC(char *, *max));
+	NO_SPACE(*table);
     }
 
     s = TMALLOC(char, len + 1);
     NO_SPACE(s);
 
-    strncpy(s, tag, len);
+    strncpy(s, text, len);
     s[len] = 0;
-    S->tag_table[S->ntags++] = s;
+    (*table)[(*count)++] = s;
     return s;
 }
 
+static char *
+cache_tag(byacc_t* S, char *tag, size_t len)
+{
+    return cache_string(S, &S->tag_table, &S->ntags, &S->tagmax, tag, len);
+}
+
 static char *
 get_tag(byacc_t* S)
 {
@@ -1742,6 +1748,13 @@ get_tag(byacc_t* S)
 }
 
 #if defined(YYBTYACC)
+static char *
+cache_argname(byacc_t* S, char *name, size_t len)
+{
+    return cache_string(S, &S->argname_table, &S->nargnames, &S->argnamemax,
+			name, len);
+}
+
 static char *
 scan_id(byacc_t* S)
 {
@@ -1749,7 +1762,7 @@ scan_id(byacc_t* S)
 
     while (IS_NAME2(UCH(*S->cptr)))
 	S->cptr++;
-    return cache_tag(S, b, (size_t)(S->cptr - b));
+    return cache_argname(S, b, (size_t)(S->cptr - b));
 }
 #endif
 
@@ -2310,7 +2323,8 @@ copy_args(byacc_t* S, int *alen)
 }
 
 static char *
-parse_id(byacc_t* S, char *p, char **save)
+parse_id(byacc_t* S, char *p, char **save,
+	 char *(*cache) (byacc_t*, char *, size_t))
 {
     char *b;
 
@@ -2324,7 +2338,7 @@ parse_id(byacc_t* S, char *p, char **save)
 	p++;
     if (save)
     {
-	*save = cache_tag(S, b, (size_t)(p - b));
+	*save = cache(S, b, (size_t)(p - b));
     }
     return p;
 }
@@ -2384,7 +2398,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 	if (*p == '<')
 	{
 	    S->havetags = 1;
-	    if (!(p = parse_id(S, p + 1, &tmp)))
+	    if (!(p = parse_id(S, p + 1, &tmp, cache_tag)))
 		bad_formals(S);
 	    while (isspace(UCH(*p)))
 		if (*p++ == '\n')
@@ -2401,7 +2415,8 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 	}
 	else if (!redec)
 	    a->argtags[i] = NULL;
-	if (!(p = parse_id(S, p, (i < a->args) ? &a->argnames[i] : NULL)))
+	if (!(p = parse_id(S, p, (i < a->args) ? &a->argnames[i] : NULL,
+			 cache_argname)))
 	    bad_formals(S);
 	while (isspace(UCH(*p)))
 	    if (*p++ == '\n')
@@ -2452,7 +2467,7 @@ compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
 	{
 	    char *tag = NULL;
 	    if (*++p == '<')
-		if (!(p = parse_id(S, ++p, &tag)) || *p++ != '>')
+		if (!(p = parse_id(S, ++p, &tag, cache_tag)) || *p++ != '>')
 		    illegal_tag(S, S->rescan_lineno, NULL, NULL);
 	    if (isdigit(UCH(*p)) || *p == '-')
 	    {
@@ -2481,7 +2496,7 @@ compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
 	    else if (isalpha(UCH(*p)) || *p == '_')
 	    {
 		char *arg;
-		if (!(p = parse_id(S, p, &arg)))
+		if (!(p = parse_id(S, p, &arg, cache_argname)))
 		    dollar_error(S, S->rescan_lineno, NULL, NULL);
 		for (i = S->plhs[S->nrules]->args - 1; i >= 0; i--)
 		    if (arg == S->plhs[S->nrules]->argnames[i])
@@ -2531,7 +2546,7 @@ can_elide_arg(byacc_t* S, char **theptr, char *yyvaltag)
 	return 0;
     if (*p == '<')
     {
-	if (!(p = parse_id(S, ++p, &tag)) || *p++ != '>')
+	if (!(p = parse_id(S, ++p, &tag, cache_tag)) || *p++ != '>')
 	    return 0;
     }
     for (i = S->nitems - 1; S->pitem[i]; --i)
@@ -2576,7 +2591,7 @@ can_elide_arg(byacc_t* S, char **theptr, char *yyvaltag)
     else if (isalpha(UCH(*p)) || *p == '_')
     {
 	char *arg;
-	if (!(p = parse_id(S, p, &arg)))
+	if (!(p = parse_id(S, p, &arg, cache_argname)))
 	{
 	    FREE(offsets);
 	    return 0;
@@ -3759,6 +3774,11 @@ free_tags(byacc_t* S)
 {
     int i;
 
+    for (i = 0; i < S->nargnames; ++i)
+	FREE(S->argname_table[i]);
+    if (S->argname_table != 0)
+	FREE(S->argname_table);
+
     if (S->tag_table == 0)
 	return;
 
-- 
2.43.0

