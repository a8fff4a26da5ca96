From 4f0d55b2e0032cf5f61863fedb98fac238557db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 01/43] fix: initialise the parser control block

lexem, ast and error_delay were read (and freed) uninitialised by the first parse.
---
 Narsese/Parser/Parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..8df4141 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -6,8 +6,13 @@ using namespace PARSER;
 Parser::Parser()
 {
     this->eof = '\n';
+    this->stack = this->tos = NULL;
     this->stacksize = 0;
-    this->buf = NULL;
+    this->lexem = NULL;
+    this->buf = this->bufend = this->bufsize = NULL;
+    this->is_eof = false;
+    this->error_delay = this->error_count = 0;
+    this->ast = NULL;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
-- 
2.43.0


From 4dbd9777f685109b17901f8e6510723ebc27dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 02/43] fix: grow the parse stack before the top entry leaves
 it

Every push, including those of empty productions, wrote one past the stack when it held a multiple of 128 entries.
---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From a6c8e8a5c176d174f02130a5fd8562f402e977fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 03/43] fix: keep the lookahead buffer terminated and move only
 what it holds

The buffer lost its terminator at end of input and clear_input moved one character too many: both read past the allocation when the buffer held a multiple of 128 characters.
---
 Narsese/Parser/narsese.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..5b07ba7 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -263,6 +263,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
 			this->is_eof = true;
+			*( this->bufend ) = 0;
 			return this->eof;
 		}
 #if UNICC_DEBUG	> 2
@@ -323,7 +324,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From 220958070040ab80983985c3f3d39dd84721728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 04/43] fix: get_lexem on characters wcstombs cannot convert

It returned an empty allocation without a terminator, which the syntax error message then read.
---
 Narsese/Parser/narsese.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 5b07ba7..8e8810f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -26,6 +26,25 @@ UNICC_SCHAR* _parser::get_lexem( void )
 
 	free( this->lexem );
 
+	if( size == (size_t)-1 )
+	{
+		/* Not a valid wide string (e.g. bytes of an UTF-8 sequence): narrow it */
+		for( size = 0; this->buf[ size ]; size++ )
+			;
+
+		if( !( this->lexem = (UNICC_SCHAR*)malloc(
+				( size + 1 ) * sizeof( UNICC_SCHAR ) ) ) )
+		{
+			UNICC_OUTOFMEM( this );
+			return NULL;
+		}
+
+		for( size_t i = 0; i <= size; i++ )
+			this->lexem[ i ] = (UNICC_SCHAR)this->buf[ i ];
+
+		return this->lexem;
+	}
+
 	if( !( this->lexem = (UNICC_SCHAR*)malloc(
 			( size + 1 ) * sizeof( UNICC_SCHAR ) ) ) )
 	{
-- 
2.43.0


From 0642f2e6fe07fd5393acd965e426b98fb0bec57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 05/43] fix: a failed parse must not influence the following
 ones

Its lookahead characters were parsed as the start of the next input, its AST nodes leaked, and the AST of an earlier parse that ended in an exception was returned in its place.
---
 Narsese/Parser/narsese.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 8e8810f..421ac83 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -712,6 +712,11 @@ int _parser::parse( void )
 	this->is_eof = false;
 	this->sym = this->old_sym = -1;
 	this->line = this->column = 1;
+	this->ast = NULL;
+
+	// Drop what a previous, failed parse left in the input buffer
+	this->len = 0;
+	UNICC_CLEARIN( this );
 
 	memset( &this->test, 0, sizeof( _vtype ) );
 
@@ -971,6 +976,11 @@ int _parser::parse( void )
 	// Clean up parser control block
 	UNICC_CLEARIN( this );
 
+	// Drop the AST nodes of a failed parse
+	if( this->act != UNICC_SUCCESS )
+		for( ; this->tos >= this->stack; this->tos-- )
+			this->ast_free( this->tos->node );
+
 	free( this->stack );
 	this->stack = NULL;
 
-- 
2.43.0


From 14d87138c039662128528f0d6eec0eb02ff0f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 06/43] fix: numbers out of range in intervals, tenses, truths
 and budgets

std::stod threw in the middle of the transformation, leaking everything built so far, and the conversion of large integers to int was undefined.
---
 Narsese/Parser/NarseseParser.cpp | 34 +++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..d49a44b 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -13,8 +13,11 @@
 // #include "Narsese/include/Truth.h"
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
+#include <algorithm>
+#include <cstdlib>
 #include <functional> // std::reference_wrapper
 #include <iostream>
+#include <limits>
 #include <memory>
 // #include <list>
 #include <tuple>
@@ -64,6 +67,19 @@ inline _T get(void *obj)
 	return ret;
 }
 
+/* The number denoted by a token. Unlike `std::stod`, it saturates instead of throwing on numbers out of range. */
+inline double *get_number(void *token)
+{
+	return new double(std::strtod((char *)token, nullptr));
+}
+
+inline signed int to_int(double number)
+{
+	constexpr double max = std::numeric_limits<signed int>::max();
+	constexpr double min = std::numeric_limits<signed int>::min();
+	return (signed int)std::clamp(number, min, max);
+}
+
 /*definitions*/
 void *NARSESEPARSER::task(Parser *self, const Args &args)
 {
@@ -477,7 +493,7 @@ void *NARSESEPARSER::interval(Parser *self, const Args &args)
 {
 	void *ret;
 	double dt = *(double *)args[0];
-	auto interval = (new pTerm(new Interval((signed int)dt)));
+	auto interval = (new pTerm(new Interval(to_int(dt))));
 	ret = interval;
 	delete (double *)args[0];
 	return ret;
@@ -766,7 +782,7 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 {
 	void *ret;
 	double t = *(double *)args[0];
-	ret = new std::tuple(0, (new (signed int)(t)));
+	ret = new std::tuple(0, (new (signed int)(to_int(t))));
 	delete (double *)args[0];
 	return ret;
 }
@@ -869,43 +885,43 @@ void *NARSESEPARSER::string(Parser *self, const Args &args)
 void *NARSESEPARSER::quality(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = get_number(args[0]);
 	return ret;
 }
 void *NARSESEPARSER::durability(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = get_number(args[0]);
 	return ret;
 }
 void *NARSESEPARSER::priority(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = get_number(args[0]);
 	return ret;
 }
 void *NARSESEPARSER::k_evidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "1"
+	ret = get_number(args[0]); // e.g., "1"
 	return ret;
 }
 void *NARSESEPARSER::confidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = get_number(args[0]); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::frequency(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = get_number(args[0]); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::integer(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., 123
+	ret = get_number(args[0]); // e.g., 123
 	return ret;
 }
 
-- 
2.43.0


From f6bee6955512ff2ecb9784de8a29b7d33d19278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 07/43] fix: look semantic actions up by name, not by the
 address of a string literal

---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From 0cc4890e7719a3d5ca791987553c78e920b67a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 08/43] fix: look an operation up under its own name

`^go` was dereferenced as null when only the term `go` existed, and interned twice otherwise.
---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index d49a44b..9b4d04f 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -474,7 +474,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From e51a1dc351af17e0951c10c72fc2539fb79a4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 09/43] fix: connect each kind of variable index to the one of
 the same kind

Indices of dependent and query variables were never collected, and those of independent ones three times.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..244fb92 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From c95f7b64cbbca05cb0aa27f6bb721254e99c322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 10/43] fix: compare dependent and query variables by their own
 indices

The (empty) list of independent indices was read instead.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 244fb92..7dd0af1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From a4ac1744f05f8d58a7f61bf86076f1d6eb6b3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 11/43] fix: order terms with variables lexicographically

The order was not antisymmetric, so sets of such terms held duplicates or lost terms.
---
 Narsese/include/Term.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 7dd0af1..5f9bda4 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -151,11 +151,13 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
+            return term1.copula < term2.copula;
         }
         else if (this->is_compound())
         {
@@ -171,6 +173,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 6bd00d998305be8497fdec7d5d8699514e7ced55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 12/43] fix: components that cannot be merged stay components
 as a whole

---
 Narsese/src/Compound.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..2651ec5 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -187,8 +187,9 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
             if (terms_merged == nullptr)
             {
+                /* They are components of the parent as a whole. */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
-- 
2.43.0


From 80035d3a6afc48a1fca1298f5b4ffa5832fe2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 13/43] fix: keep the components whose intersection is empty

---
 Narsese/src/Compound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 2651ec5..24312a7 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -185,7 +185,7 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
                 /* They are components of the parent as a whole. */
                 for (auto &compound : compounds)
-- 
2.43.0


From a275fe0c52be7572848e031e5b7f3bd9f8edf8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 14/43] fix: the intersection of sets of the same kind is a set

---
 Narsese/src/Compound.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 24312a7..4938cc0 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -252,8 +252,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if ((_connector == Connector::ExtensionalSet || _connector == Connector::IntensionalSet) &&
+                (connector_parent == Connector::IntensionalIntersection || connector_parent == Connector::ExtensionalIntersection))
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From 5909f0bedf43599a934c6c7d34f04780735affa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 15/43] fix: reject compounds without components instead of
 dereferencing an end iterator

---
 Narsese/src/Compound.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 4938cc0..c8d759f 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -132,6 +132,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
         */
         return {connector_parent, terms};
     }
+    if (terms->size() == 0)
+        throw std::runtime_error("A compound term should have at least one component.");
     if (is_commutative)
     {
         /*
-- 
2.43.0


From 5177e1f8f0a265efe3253a6042aa656e0d908944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 16/43] fix: only a product inheriting from an operation is an
 operation statement

---
 Narsese/include/Statement.inl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..69acdfb 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,9 +23,7 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
-
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
+        if (this->copula == COPULA::INHERITANCE && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
         // is_operation = predicate.is_operation;
-- 
2.43.0


From 423f7b097f04f07353cee4e5d4df017d1675d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 17/43] fix: print operations without arguments as they are
 read

---
 Interpreter/src/Interpreter.cpp | 9 ++++++---
 Narsese/include/Term.h          | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..cfff894 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.components().size() > 0)
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.components().size() > 0)
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
@@ -161,7 +165,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..c6297ad 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -444,7 +444,7 @@ namespace TERM
                 this->terms_ordered.push_back(term);
         }
 
-        inline auto size()
+        inline auto size() const
         {
             if (this->_is_commutative)
                 return this->terms_unordered.size();
-- 
2.43.0


From 415ed54766e2d5a49bdb8c0b3086f6f3fd3a1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 18/43] fix: print intervals as they are read

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index cfff894..000cf92 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, fmt::format("+{}", interval.interval));
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{}", interval.interval);
         }
     }
 
-- 
2.43.0


From 400a51753c719751618785b786f87b23a82a1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 19/43] fix: colored interpretation of names, copulas,
 sentences and tasks

---
 Interpreter/src/Interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 000cf92..e45e880 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -127,7 +127,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
@@ -233,7 +233,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
@@ -271,7 +271,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From d1d3ac4c9c8679bf6b4aa703969df480eebcbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 20/43] fix: interpret sentences that are no Judgement or Goal
 objects

---
 Interpreter/src/Interpreter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index e45e880..64d3e0c 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -258,14 +258,14 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     string str_punct;
     if (colored)
     {
-        if (sentence.is_judgement())
+        if (sentence.truth != nullptr && sentence.is_judgement())
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
-        else if (sentence.is_goal())
+        else if (sentence.truth != nullptr && sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -275,14 +275,14 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     }
     else
     {
-        if (sentence.is_judgement())
+        if (sentence.truth != nullptr && sentence.is_judgement())
         {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
-        else if (sentence.is_goal())
+        else if (sentence.truth != nullptr && sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From 924a3a4f5e774d79920a0da6218a35ac850373c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 21/43] fix: virtual destructors of the polymorphic classes
 Term and Sentence

---
 Narsese/include/Sentence.h | 1 +
 Narsese/include/Term.h     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..3f7a5d6 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -129,6 +129,7 @@ namespace SENTENCE
             if (stamp == nullptr)
                 stamp = pStamp(new Stamp(true));
         }
+        virtual ~Sentence() = default; // e.g. a Judgement is deleted through a `Sentence *`
 
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index c6297ad..6b4caa3 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,6 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default; // e.g. a Variable is deleted through a `Term *`
         // ~Term()
         // {
         //     std::cout << (size_t)this << " Term freed" << std::endl;
-- 
2.43.0


From db942aa0cf6665422bf1240949062df4ff06dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 22/43] fix: copy, assign, free and post-increment term
 iterators

---
 Narsese/include/Term.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 6b4caa3..1a216d5 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -212,9 +212,8 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
@@ -228,12 +227,19 @@ namespace TERM
             if (it_ == nullptr)
                 return;
             if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
                 delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
             it_ = nullptr;
         }
 
+        Iterator &operator=(Iterator iterator)
+        {
+            std::swap(this->_is_commutative, iterator._is_commutative);
+            std::swap(this->it_, iterator.it_);
+            return *this;
+        }
+
         const pTerm &operator*()
         {
             if (this->_is_commutative)
@@ -251,9 +257,11 @@ namespace TERM
             return *this;
         }
 
-        Iterator &operator++(int)
+        Iterator operator++(int)
         {
-            return ++(*this);
+            auto iterator = *this;
+            ++(*this);
+            return iterator;
         }
 
         bool operator!=(const Iterator &other) const
-- 
2.43.0


From d03de9ecc76945b3c04248545075783ba4611560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 23/43] fix: assigning to a term handle releases the term it
 held

---
 Narsese/include/Term.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 1a216d5..74186af 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -58,6 +58,16 @@ namespace TERM
         pTerm() : std::shared_ptr<Term>::shared_ptr() {}
         pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
         // pTerm() : std::shared_ptr<Term>() {}
+        pTerm(const pTerm &other) = default;
+
+        /* The term assigned to is released as if its handle were destructed. */
+        pTerm &operator=(const pTerm &other)
+        {
+            pTerm term(other);
+            this->swap(term);
+            std::swap(this->_interpreter, term._interpreter);
+            return *this;
+        }
 
         ~pTerm();
 
-- 
2.43.0


From 835eec9fdd459f240f266ab529b3e4e23a00ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 24/43] fix: one clock and one input id counter for all
 translation units

---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From 4fd0b498242d00e21cc3e1589d270f57d8c90e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 25/43] fix: stamps without a given evidential base get one

---
 Narsese/include/Sentence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index 3f7a5d6..d9650e4 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -62,7 +62,7 @@ namespace SENTENCE
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
             if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From 4a9f5a4bd2dc2cc71e29592bf905ff830c3eed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 26/43] fix: merging evidential bases

---
 Narsese/include/Evidence.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..cb46707 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,9 +32,10 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
+            auto base1 = Base(*this->_set);
             auto &base2 = other;
             this->_set->clear();
+            this->_is_hashed = false;
             Base::interleave(*this, base1, base2);
         }
 
@@ -52,7 +53,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
@@ -63,7 +64,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From 14f0d53b60b6aa1543fce3577d87169e1d60f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 27/43] fix: symmetrize and reverse return a copula

---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From 1e0ee181e783a658a32f2da2520e3522a9bc53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 28/43] fix: temporal projection discounts the confidence by a
 fraction

---
 NAL/Functions/include/TemporalFunctions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..7f8de26 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -2,6 +2,8 @@
 #define _TEMPORAL_FUNCTIONS_H
 
 #include "Narsese/include/Truth.h"
+#include <cmath>
+#include <cstdint>
 
 namespace TEMPORAL_FUNCTIONS
 {
@@ -10,8 +12,9 @@ namespace TEMPORAL_FUNCTIONS
 
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
-        auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto distance = [](int64_t t1, int64_t t2) { return std::abs((double)t1 - (double)t2); };
+        auto d = distance(t_source, t_current) + distance(t_target, t_current) + decay_duration;
+        auto k_c = d > 0 ? distance(t_source, t_target) / d : 0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From 5625e92713b5fac58a0b41da645156d968397b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 29/43] fix: Python's parse raises RuntimeError on invalid
 input

---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 9b4d04f..4e7e99f 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1021,12 +1021,12 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			{
 				// std::cout << e.what() << std::endl;
 				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw py::error_already_set();
 			}
 			catch (...)
 			{
 				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw py::error_already_set();
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From 7db836698270555f738905a2c15156c5ce4968d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 30/43] fix: __repr__ without arguments in the Python module

---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index c8d759f..6a26e6d 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -349,5 +349,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = nullptr);
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..0468876 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = nullptr);
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..882f27c 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = nullptr);
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..270f449 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = nullptr);
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..75ebd31 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = nullptr);
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From b6a5e3db94b328b7cf67e1b4fd5adea016d5dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 31/43] fix: Python's Connector.ExtensionalDifference

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From 9dec738d6eb466a725a8113ba6b5682f6dfbfdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 32/43] fix: Python iterators over components own them

---
 Narsese/src/Term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index 75ebd31..1acd8a7 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -113,7 +113,7 @@ namespace TERM
                     else if (self->is_statement())
                         return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
                     else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                        return py::iter(py::cast(std::vector<pTerm>(*self->terms)));
                     else
                     {
                         PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-- 
2.43.0


From ad13369731c6a276e2cafd5d8c58263df6c3c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 33/43] fix: an interval changed in place changes its hash

---
 Narsese/include/Interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..551af32 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -40,6 +40,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
             return *this;
         }
     };
-- 
2.43.0


From 85620bfa543ea8d3545d35c16a6b76e4c4c9d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 34/43] fix: order distinct terms of the same hash, without
 comparing components twice

---
 Narsese/include/Term.inl | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 5f9bda4..0c76df1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -121,9 +121,8 @@ namespace TERM
         if (hash(*this) != hash(other))
             return hash(*this) < hash(other);
 
-        if (!this->has_var && !other.has_var)
-            return hash(*this) < hash(other);
-        else if (!this->has_var && other.has_var)
+        /* Terms of the same hash are still distinct unless they are equal. */
+        if (!this->has_var && other.has_var)
             return false;
         else if (this->has_var && !other.has_var)
             return true;
@@ -149,14 +148,10 @@ namespace TERM
             auto &term1 = *this;
             auto &term2 = other;
 
-            if (*(term1.subject) < *(term2.subject))
-                return true;
-            if (*(term2.subject) < *(term1.subject))
-                return false;
-            if (*(term1.predicate) < *(term2.predicate))
-                return true;
-            if (*(term2.predicate) < *(term1.predicate))
-                return false;
+            if (!(*(term1.subject) == *(term2.subject)))
+                return *(term1.subject) < *(term2.subject);
+            if (!(*(term1.predicate) == *(term2.predicate)))
+                return *(term1.predicate) < *(term2.predicate);
             return term1.copula < term2.copula;
         }
         else if (this->is_compound())
@@ -171,10 +166,8 @@ namespace TERM
             {
                 auto &term1 = **it1;
                 auto &term2 = **it2;
-                if ((term1 < term2))
-                    return true;
-                if ((term2 < term1))
-                    return false;
+                if (!(term1 == term2))
+                    return term1 < term2;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 2f8618af6088b6403e6792be747942e3d70a59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 35/43] fix: registry keys are whole hash values, and only
 those of atoms

---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 Interpreter/src/Interpreter.cpp     |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 64d3e0c..b8ac9f3 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -62,7 +62,7 @@ string Interpreter::interpret(Term &term, bool colored)
         }
     }
 
-    if (this->check(key))
+    if (term.type == TermType::ATOM && this->check(key))
     {
         /* If it has been existed, then directly get the interpretation by key. */
         if (term.type == TermType::ATOM && colored)
-- 
2.43.0


From 567d7b6a10653a4823635580a94050a888f28e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 36/43] fix: resetting an interpreter releases the handles it
 holds

---
 Interpreter/include/Interpreter.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..83a1015 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -150,18 +150,14 @@ namespace INTERPRETER
         void reset()
         {
 
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
-            objects.clear();
+            /* Terms still in use elsewhere are released by their other handles, which no longer find them here. */
+            auto objects = std::move(this->objects);
+            this->objects.clear();
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto pair : objects)
+                delete pair.second;
         }
 
         ~Interpreter()
-- 
2.43.0


From 2d3aa7fa910e4cb40738c550555249681d0c2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 37/43] fix: semantic actions of nodes without children get no
 arguments, not a null reference

---
 Narsese/Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 8df4141..420f37a 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -100,7 +100,7 @@ Args *Parser::transform(_ast *node)
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
-                ret = ((METHOD)fptr)(this, *ret_args);
+                ret = ((METHOD)fptr)(this, ret_args != nullptr ? *ret_args : Args());
             }
             if (ret_args != nullptr)
             {
-- 
2.43.0


From e96d0e53cf6a14e88dfde250f90ce605b92e9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 38/43] fix: evidence shared by merged bases counts once
 towards their maximum length

---
 Narsese/include/Evidence.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index cb46707..cf56572 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -45,19 +45,17 @@ namespace EVIDENCE
             size_t i = 0;
             auto it1 = base1._set->begin();
             auto it2 = base2._set->begin();
-            while (i < base_length)
+            while (i < base_length && (it1 != base1._set->end() || it2 != base2._set->end()))
             {
                 if (it2 != base2._set->end())
                 {
-                    base._set->insert(*it2);
+                    i += base._set->insert(*it2).second; // shared evidence counts once
                     it2++;
-                    i++;
                 }
                 if (i < base_length && it1 != base1._set->end())
                 {
-                    base._set->insert(*it1);
+                    i += base._set->insert(*it1).second;
                     it1++;
-                    i++;
                 }
             }
         }
-- 
2.43.0


From 2b83af3544ce9dd038bf08ec0a0c4d366b9d8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 39/43] fix: past, present and future tense are relative to the
 current time

---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 4e7e99f..c83e602 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -789,20 +789,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From c2344bd9a9d5215945c5aaca7431e887e1642c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 40/43] fix: a confidence computed from much evidence stays
 below 1

---
 NAL/Functions/include/UncertaintyMappingFunctions.h | 2 +-
 Narsese/include/Truth.h                             | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/UncertaintyMappingFunctions.h b/NAL/Functions/include/UncertaintyMappingFunctions.h
index b278bac..46c06df 100644
--- a/NAL/Functions/include/UncertaintyMappingFunctions.h
+++ b/NAL/Functions/include/UncertaintyMappingFunctions.h
@@ -10,7 +10,7 @@ namespace UNCERTAINTY_MAPPING_FUNCTIONS
     inline float fc_to_w(float f, float c, float k) { return k * c / (1 - c); }
     inline float fc_to_w_minus(float f, float c, float k) { return k * (1 - f) * c / (1 - c); }
     inline float w_to_f(float w_plus, float w) { return w > 1e-8 ? w_plus / w : 0.0; }
-    inline float w_to_c(float w, float k) { return w / (w + k); }
+    inline float w_to_c(float w, float k) { return TRUTH::below_one(w / (w + k)); }
 
     // Truth truth_from_w(float w_plus, float w, float k=1.0);
     inline Truth truth_from_w(float w_plus, float w, float k = 1.0)
diff --git a/Narsese/include/Truth.h b/Narsese/include/Truth.h
index 4c1a4b3..482d0e9 100755
--- a/Narsese/include/Truth.h
+++ b/Narsese/include/Truth.h
@@ -1,6 +1,8 @@
 #ifndef _TRUTH_H
 #define _TRUTH_H
 
+#include <algorithm>
+#include <cmath>
 #include <memory>
 #include <pybind11/pybind11.h>
 #include "Config.h"
@@ -13,6 +15,9 @@ namespace TRUTH
     class Truth;
     typedef std::shared_ptr<Truth> pTruth;
 
+    // No amount of evidence makes a confidence of 1, also if the nearest `float` is 1.
+    inline float below_one(float c) { return std::min(c, std::nextafter(1.0f, 0.0f)); }
+
     class PYBIND11_EXPORT Truth
     {
     public:
@@ -46,7 +51,7 @@ namespace TRUTH
         inline void set_w(double w_p, double w)
         {
             this->f = w > 0 ? w_p / w : 0.5;
-            this->c = w / (w + k);
+            this->c = below_one(w / (w + k));
         }
 
         inline static pTruth create(float f, float c, float k = 1.0)
-- 
2.43.0


From 48d67b79c7db8ba03ddf5ff7e56a76e70bda5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 41/43] fix: arguments out of range raise in Python

---
 Narsese/src/Budget.cpp    | 2 +-
 Narsese/src/Compound.cpp  | 2 ++
 Narsese/src/Sentence.cpp  | 2 ++
 Narsese/src/Statement.cpp | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Narsese/src/Budget.cpp b/Narsese/src/Budget.cpp
index 2913b3a..312db86 100755
--- a/Narsese/src/Budget.cpp
+++ b/Narsese/src/Budget.cpp
@@ -13,7 +13,7 @@ namespace BUDGET
             .def_readwrite("p", &Budget::priority)
             .def_readwrite("d", &Budget::durability)
             .def_readwrite("q", &Budget::quality)
-            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); })
+            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); }, py::arg("truth").none(false))
             .def("__repr__", [](Budget& self)
                  { return fmt::format("<Budget: ${:.2f};{:.2f};{:.2f}$>", self.priority, self.durability, self.quality); });
     }
diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 6a26e6d..9420299 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -339,6 +339,8 @@ void COMPOUND::pybind_compound(py::module &m)
         .def(py::init(
             [](CONNECTOR::Connector connector, py::args args)
             {
+                if (connector < CONNECTOR::CONJUNCTION || connector > CONNECTOR::LIST)
+                    throw py::value_error("Invalid connector.");
                 std::vector<TERM::pTerm> terms{};
                 for (auto arg : args)
                     terms.push_back(py::cast<TERM::pTerm>(arg));
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 0468876..eb33deb 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -33,6 +33,8 @@ namespace SENTENCE
             .def(py::init(
                 [](TERM::pTerm term, PUNCTUATION::Punctuation _punct, pTruth _truth, pStamp _stamp)
                 {
+                    if (_punct < PUNCTUATION::Judgement || _punct > PUNCTUATION::Quest)
+                        throw py::value_error("Invalid punctuation.");
                     return SENTENCE::Sentence::create(term, _punct, _truth, _stamp);
                 }), py::arg("term"), py::arg("punct"), py::arg("truth"), py::arg("stamp"))
             // .def("__repr__", &pSentence::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 882f27c..329add3 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -18,6 +18,8 @@ namespace STATEMENT
             .def(py::init(
                 [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
                 {
+                    if (copula < COPULA::INHERITANCE || copula > COPULA::CONCURRENTEQUIVALENCE)
+                        throw py::value_error("Invalid copula.");
                     return STATEMENT::Statement::create(subject, copula, predicate);
                 }))
             // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-- 
2.43.0


From cb69e6662bf7277fe9099566964bc806273208ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 42/43] fix: numbers in a text are read alike in every locale

---
 Narsese/Parser/NarseseParser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index c83e602..07fcad8 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -14,7 +14,9 @@
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
 #include <algorithm>
+#include <charconv>
 #include <cstdlib>
+#include <cstring>
 #include <functional> // std::reference_wrapper
 #include <iostream>
 #include <limits>
@@ -67,10 +69,14 @@ inline _T get(void *obj)
 	return ret;
 }
 
-/* The number denoted by a token. Unlike `std::stod`, it saturates instead of throwing on numbers out of range. */
+/* The number denoted by a token. Unlike `std::stod`, it depends on no locale, and saturates instead of throwing on numbers out of range. */
 inline double *get_number(void *token)
 {
-	return new double(std::strtod((char *)token, nullptr));
+	auto str = (const char *)token;
+	double number = 0;
+	if (std::from_chars(str, str + std::strlen(str), number).ec == std::errc::result_out_of_range)
+		number = std::strtod(str, nullptr); // the digits before the decimal point decide
+	return new double(number);
 }
 
 inline signed int to_int(double number)
-- 
2.43.0


From 47f1ce269383fedfe857692d451ce101aba9d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 43/43] fix: set operations refuse a sequence in first place
 too

---
 Narsese/include/Term.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 74186af..d988a76 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -395,6 +395,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> intersection((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -417,6 +419,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> union_((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -439,6 +443,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> difference((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
-- 
2.43.0

