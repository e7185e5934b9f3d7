From a39d112fadf57589f8a4098c5e7db8aab286dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 01/43] fix: LongestPrefix() lost matches ending inside a
 fast-forwarded range

While looping in a state that has exits, the runner skips whole words
without consulting the predicate, so an accepted prefix ending in the
skipped range went unnoticed unless another byte followed it.
---
 pire/scanners/multi.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..850b484 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,6 +984,11 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
+			// The state has not changed, but the predicate must know how far it has lasted
+			if (skipEnd != head && pred(scanner, state, (const char*)skipEnd) == Stop) {
+				st = state;
+				return Stop;
+			}
 			head = skipEnd;
 			noShortcut = true;
 		}
-- 
2.43.0


From f34d30c8103e60dfc2b159d7dc4581c3ebdc0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 02/43] fix: ShortestSuffix() forgot a suffix it had found when
 asked to go through the begin mark

The mark was fed to a state that already accepted, possibly in the middle
of the string, so the accepted suffix was lost; the other three searches
keep it.
---
 pire/run.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..c8e5b8a 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -356,7 +356,7 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 		scanner.Next(state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From 461c3a60d6119701d98abb5907151a007b04eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 03/43] fix: an empty SlowScanner could not be copied, nor an
 empty SlowCapturingScanner used

---
 pire/extra/capture.h | 2 ++
 pire/scanners/slow.h | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 213ee44..e905b0c 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -398,6 +398,8 @@ public:
 		} else {
 			size_t num = GetPosition(state, letter);
 			const auto& jumpVec = GetJumpsVec(num);
+			if (jumpVec.empty())
+				return; // An empty scanner has no actions at all
 			const auto& actionVec = GetActionsVec(num);
 			for (size_t i = 0; i < jumpVec.size(); ++i)
 				nextStates.emplace_back(jumpVec[i], actionVec[i]);
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..0f77f4c 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -235,7 +235,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
@@ -318,7 +318,7 @@ protected:
 
 	const TVector<unsigned int>& GetJumpsVec(size_t from) const
 	{
-		return m_vec[from];
+		return (*m_vecptr)[from];
 	}
 
 	size_t* GetJumpPos() const
-- 
2.43.0


From 02df8d0408e779ee54277d7188bf24c62c93a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 04/43] fix: saving a mapped Scanner, SimpleScanner or
 SlowScanner read from a null pointer

---
 pire/scanner_io.cpp   | 17 ++++++++++++-----
 pire/scanners/multi.h |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..18c4f4e 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -42,10 +42,8 @@ void SimpleScanner::Save(yostream* s) const
 	Impl::AlignSave(s, sizeof(mc));
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
-	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
-	}
+	if (!Empty())
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 }
 
 void SimpleScanner::Load(yistream* s)
@@ -77,10 +75,19 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (IsMmaped()) {
+			const size_t count = m.statesCount * m.lettersCount;
+			Impl::AlignedSaveArray(s, m_jumpPos, count + 1);
+			Impl::AlignedSaveArray(s, m_jumps, m_jumpPos[count]);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, m_jumpPos[count]);
+			return;
+		}
+		Y_ASSERT(!m_vec.empty());
+
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 850b484..c48e553 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -569,7 +569,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From 6d486b01c7b98a3b97d21d8e75be4d0e303987c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 05/43] fix: SimpleScanner and SlowScanner ignored a mapped
 empty scanner; SlowCapturingScanner lost its actions after Mmap()

---
 pire/scanners/simple.h | 5 ++---
 pire/scanners/slow.h   | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..cc99435 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -144,10 +144,9 @@ public:
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
+			Impl::AdvancePtr(p, size, s.BufSize());
 		}
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 0f77f4c..ee67a9c 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -195,8 +195,9 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		s.need_actions = need_actions;
+		Swap(s);
 		return (const void*) p;
 	}
 
-- 
2.43.0


From c3465a140e05ec5fcca06dda30c6c2818a598839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 06/43] fix: loading from a stream that ends or fails early
 silently produced garbage

---
 pire/stub/saveload.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..79171e8 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -149,7 +149,8 @@ namespace Pire {
 	template<class T>
 	void LoadPodType(yistream* s, T& t)
 	{
-		s->read((char*) &t, sizeof(t));
+		if (!s->read((char*) &t, sizeof(t)))
+			throw Error("EOF reached while loading a regexp");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -166,7 +167,8 @@ namespace Pire {
 	template<class T>
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
-		s->read((char*) t, len * sizeof(*t));
+		if (!s->read((char*) t, len * sizeof(*t)))
+			throw Error("EOF reached while loading a regexp");
 	}
 };
 
-- 
2.43.0


From f932b00016e4648b0d80c2957b9c5a6f9730cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 07/43] fix: Mmap() of a truncated image read up to several
 words past its end

---
 pire/align.h           | 5 +++--
 pire/scanners/common.h | 2 ++
 pire/scanners/multi.h  | 5 +++--
 pire/scanners/simple.h | 5 +++--
 pire/scanners/slow.h   | 5 +++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..7a9b1c1 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				const size_t skip = (const char*) next - (const char*) p;
+				if (skip > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= skip;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/common.h b/pire/scanners/common.h
index f01658d..2425713 100644
--- a/pire/scanners/common.h
+++ b/pire/scanners/common.h
@@ -80,6 +80,8 @@ namespace Pire {
 	namespace Impl {
 		inline const void* AdvancePtr(const size_t*& ptr, size_t& size, size_t delta)
 		{
+			if (size < delta)
+				throw Error("EOF reached while mapping a regexp");
 			ptr = (const size_t*) ((const char*) ptr + delta);
 			size -= delta;
 			return (const void*) ptr;
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index c48e553..3a03ff4 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,8 +260,9 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyFlag = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(*emptyFlag));
+		const bool empty = *emptyFlag;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index cc99435..1e5fa56 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,8 +133,9 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyFlag = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(*emptyFlag));
+		const bool empty = *emptyFlag;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index ee67a9c..9cdefe6 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,8 +181,9 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyFlag = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(*emptyFlag));
+		const bool empty = *emptyFlag;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
-- 
2.43.0


From e8bea495d71591723bbfda4b02e357a165ceccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 08/43] fix: NoGlueLimitCountingScanner kept parts of its old
 contents after Load() and mapped truncated images

---
 pire/extra/count.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..ca56dd9 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,39 +1018,39 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	NoGlueLimitCountingScanner scanner;
 	ui32 type;
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
+	size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
+		Impl::AdvancePtr(p, size, sizeof(ActionIndex));
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
-			Impl::AdvancePtr(p, size, sizeof(ActionIndex));
 		} else {
-			Impl::AdvancePtr(p, size, *scanner.Actions * sizeof(ActionIndex));
+			Impl::AdvancePtr(p, size, (*scanner.Actions - 1) * sizeof(ActionIndex));
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-- 
2.43.0


From 4986431f58c2c46bda199ec0f5392de3f8096ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 09/43] fix: the parser leaked the values it was working on
 when an exception interrupted it

---
 pire/re_lexer.h  |  4 +++
 pire/re_parser.y | 82 +++++++++++++++++++++++++++++++++++-------------
 2 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 6db4242..2b974fa 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -39,6 +39,10 @@
 
 namespace Pire {
 
+namespace Impl {
+class ParserValues;
+}
+
 namespace Consts {
 enum { Inf = -1 };
 
diff --git a/pire/re_parser.y b/pire/re_parser.y
index 14e7aa5..5a2d7d0 100644
--- a/pire/re_parser.y
+++ b/pire/re_parser.y
@@ -34,6 +34,7 @@
 #pragma GCC diagnostic ignored "-Wuninitialized" // 'yylval' may be used uninitialized
 #endif
 
+#include <memory>
 #include <stdexcept>
 
 #include "fsm.h"
@@ -44,28 +45,65 @@
 #define YYSTYPE Any*
 #define YYSTYPE_IS_TRIVIAL 0
 
+namespace Pire {
+	namespace Impl {
+		/// Owns the values of grammar symbols, so that none of them
+		/// is left behind when parsing is interrupted by an exception.
+		class ParserValues {
+		public:
+			ParserValues() {}
+			~ParserValues()
+			{
+				for (auto&& i : m_values)
+					delete i;
+			}
+
+			Any* New(const Any& value)
+			{
+				std::unique_ptr<Any> any(new Any(value));
+				m_values.insert(any.get());
+				return any.release();
+			}
+			void Delete(Any* any)
+			{
+				if (m_values.erase(any))
+					delete any;
+			}
+
+		private:
+			TSet<Any*> m_values;
+
+			ParserValues(const ParserValues&);
+			ParserValues& operator = (const ParserValues&);
+		};
+	}
+}
+
 namespace {
 
 using namespace Pire;
 using Pire::Fsm;
 using Pire::Encoding;
+using Pire::Impl::ParserValues;
 
-int  yylex(YYSTYPE*, Lexer&);
+int  yylex(YYSTYPE*, Lexer&, ParserValues&);
 void yyerror(const char*);
-void yyerror(Pire::Lexer&, const char*);
+void yyerror(Pire::Lexer&, ParserValues&, const char*);
 
 Fsm& ConvertToFSM(const Encoding& encoding, Any* any);
 void AppendRange(const Encoding& encoding, Fsm& a, const Term::CharacterRange& cr);
 
 #ifdef YYBYACC
-#define YYPARSE_PARAM ,Pire::Lexer& rlex /* Yes, the leading comma is really needed here */
-#define YYLEX_PARAM rlex
+#define YYPARSE_PARAM ,Pire::Lexer& rlex, ParserValues& values /* Yes, the leading comma is really needed here */
+#define YYLEX_PARAM rlex, values
 #endif
 
 %}
 
 %lex-param {Pire::Lexer& rlex}
+%lex-param {Pire::Impl::ParserValues& values}
 %parse-param {Pire::Lexer& rlex}
+%parse-param {Pire::Impl::ParserValues& values}
 %pure_parser
 
 // Terminal declarations
@@ -75,7 +113,7 @@ void AppendRange(const Encoding& encoding, Fsm& a, const Term::CharacterRange& c
 %term YRE_AND
 %term YRE_NOT
 
-%destructor { delete $$; } <>
+%destructor { values.Delete($$); } <>
 
 %%
 
@@ -84,28 +122,28 @@ regexp
 		{
 			ConvertToFSM(rlex.Encoding(), $1);
 			DoSwap(rlex.Retval(), *$1);
-			delete $1;
+			values.Delete($1);
 			$$ = nullptr;
 		}
 	;
 
 alternative
 	: conjunction
-	| alternative '|' conjunction { ConvertToFSM(rlex.Encoding(), ($$ = $1)) |= ConvertToFSM(rlex.Encoding(), $3); delete $2; delete $3; }
+	| alternative '|' conjunction { ConvertToFSM(rlex.Encoding(), ($$ = $1)) |= ConvertToFSM(rlex.Encoding(), $3); values.Delete($2); values.Delete($3); }
 	;
 
 conjunction
 	: negation
-	| conjunction YRE_AND negation { ConvertToFSM(rlex.Encoding(), ($$ = $1)) &= ConvertToFSM(rlex.Encoding(), $3); delete $2; delete $3; }
+	| conjunction YRE_AND negation { ConvertToFSM(rlex.Encoding(), ($$ = $1)) &= ConvertToFSM(rlex.Encoding(), $3); values.Delete($2); values.Delete($3); }
 	;
 
 negation
 	: concatenation
-	| YRE_NOT concatenation { ConvertToFSM(rlex.Encoding(), ($$ = $2)).Complement(); delete $1; }
+	| YRE_NOT concatenation { ConvertToFSM(rlex.Encoding(), ($$ = $2)).Complement(); values.Delete($1); }
 	;
 
 concatenation
-	: { $$ = new Any(Fsm()); }
+	: { $$ = values.New(Fsm()); }
 	| concatenation iteration
 		{
 			Fsm& a = ConvertToFSM(rlex.Encoding(), ($$ = $1));
@@ -115,7 +153,7 @@ concatenation
 				rlex.Encoding().AppendDot(a);
 			else
 				a += ConvertToFSM(rlex.Encoding(), $2);
-			delete $2;
+			values.Delete($2);
 		}
 	;
 
@@ -124,7 +162,7 @@ iteration
 	| term YRE_COUNT
 		{
 			Fsm& orig = ConvertToFSM(rlex.Encoding(), $1);
-			$$ = new Any(orig);
+			$$ = values.New(orig);
 			Fsm& cur = $$->As<Fsm>();
 			const Term::RepetitionCount& repc = $2->As<Term::RepetitionCount>();
 
@@ -145,8 +183,8 @@ iteration
 				}
 			}
 			rlex.Parenthesized($$->As<Fsm>());
-			delete $1;
-			delete $2;
+			values.Delete($1);
+			values.Delete($2);
 		}
 	;
 
@@ -155,17 +193,17 @@ term
 	| YRE_DOT
 	| '^'
 	| '$'
-	| '(' alternative ')'      { $$ = $2; rlex.Parenthesized($$->As<Fsm>()); delete $1; delete $3; }
+	| '(' alternative ')'      { $$ = $2; rlex.Parenthesized($$->As<Fsm>()); values.Delete($1); values.Delete($3); }
 	;
 
 %%
 
-int yylex(YYSTYPE* lval, Pire::Lexer& rlex)
+int yylex(YYSTYPE* lval, Pire::Lexer& rlex, ParserValues& values)
 {
 	try {
 		Pire::Term term = rlex.Lex();
 		if (!term.Value().Empty())
-			*lval = new Any(term.Value());
+			*lval = values.New(term.Value());
 		else
 			*lval = nullptr;
 		return term.Type();
@@ -179,7 +217,7 @@ void yyerror(const char* str)
 {
 }
 
-void yyerror(Pire::Lexer& rlex, const char* str)
+void yyerror(Pire::Lexer& rlex, ParserValues&, const char* str)
 {
 	if (!rlex.ErrMsg().empty())
 		rlex.SetErrMsg(ystring("Regexp parse error: ").append(str));
@@ -246,13 +284,14 @@ Fsm& ConvertToFSM(const Encoding& encoding, Any* any)
 
 #if defined(PPP) && !defined(HAVE_CONFIG_H)
 // Workaround for some braindamaged byaccs which cannot decide what yyparse() should look like 
-static int yyparse(void*, Pire::Lexer& rlex);
+static int yyparse(void*, Pire::Lexer& rlex, ParserValues& values);
 
 namespace Pire {
 	namespace Impl {
 		int yre_parse(Pire::Lexer& rlex)
 		{
-			int rc = yyparse(0, rlex);
+			ParserValues values;
+			int rc = yyparse(0, rlex, values);
 
 			if (!rlex.ErrMsg().empty())
 				throw Error(rlex.ErrMsg());
@@ -265,7 +304,8 @@ namespace Pire {
 	namespace Impl {
 		int yre_parse(Pire::Lexer& rlex)
 		{
-			int rc = yyparse(rlex);
+			ParserValues values;
+			int rc = yyparse(rlex, values);
 
 			if (!rlex.ErrMsg().empty())
 				throw Error(rlex.ErrMsg());
-- 
2.43.0


From 51742529cdad8a75d5ec90dc08b3c53dd0a6a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 10/43] fix: a Lexer that had refused a pattern refused every
 pattern assigned to it later

---
 pire/re_lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..8e597db 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -378,6 +378,7 @@ void Lexer::InstallDefaultFeatures()
 
 Fsm Lexer::Parse()
 {
+	m_errmsg.clear();
 	if (!Impl::yre_parse(*this))
 		return m_retval.As<Fsm>();
 	else {
-- 
2.43.0


From 49e4e13f31f7709219c9383af1ed5c3c9b683bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 11/43] fix: a repetition count whose bounds are out of order
 or overflow made parsing run forever

---
 pire/re_lexer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 8e597db..b9a6ff5 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -22,6 +22,7 @@
 
 
 #include <ctype.h>
+#include <limits.h>
 #include "stub/utf8.h"
 #include "stub/singleton.h"
 #include <stdexcept>
@@ -299,7 +300,7 @@ namespace {
 				Error("Wrong repetition count");
 
 			for (; is_digit(ch); ch = GetChar())
-				lower = lower * 10 + (ch - '0');
+				AppendDigit(lower, ch);
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -311,12 +312,21 @@ namespace {
 			else if (!is_digit(ch))
 				Error("Wrong repetition count");
 			for (; is_digit(ch); ch = GetChar())
-				upper = upper * 10 + (ch - '0');
+				AppendDigit(upper, ch);
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		void AppendDigit(int& count, wchar32 digit)
+		{
+			const int value = digit - '0';
+			if (count > (INT_MAX - value) / 10)
+				Error("Too large repetition count");
+			count = count * 10 + value;
+		}
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From acb9914bed1f340b466a70e438b0110b060ebf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 12/43] fix: SlowScanner did not notice a failed allocation, or
 leaked when one of its constructors threw

---
 pire/scanners/slow.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 9cdefe6..b28a481 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -24,6 +24,8 @@
 #ifndef PIRE_SCANNERS_SLOW_H
 #define PIRE_SCANNERS_SLOW_H
 
+#include <memory>
+#include <string.h>
 #include "common.h"
 #include "../approx_matching.h"
 #include "../stub/stl.h"
@@ -286,12 +288,6 @@ public:
 
 	SlowScanner& operator = (const SlowScanner& s) { SlowScanner(s).Swap(*this); return *this; }
 
-	~SlowScanner()
-	{
-		for (auto&& i : m_pool)
-			free(i);
-	}
-
 	void Save(yostream*) const;
 	void Load(yistream*);
 
@@ -352,7 +348,7 @@ private:
 	size_t* m_jumpPos;
 	size_t* m_letters;
 
-	TVector<void*> m_pool;
+	TVector<std::unique_ptr<char[]>> m_pool;
 	TVector< TVector<unsigned> > m_vec, *m_vecptr;
 
 	// Only used to force Null() call during static initialization, when Null()::n can be
@@ -366,9 +362,10 @@ private:
 
 	template<class T> void alloc(T*& p, size_t size)
 	{
-		p = static_cast<T*>(malloc(size * sizeof(T)));
-		memset(p, 0, size * sizeof(T));
-		m_pool.push_back(p);
+		std::unique_ptr<char[]> buffer(new char[size * sizeof(T)]);
+		memset(buffer.get(), 0, size * sizeof(T));
+		p = reinterpret_cast<T*>(buffer.get());
+		m_pool.push_back(std::move(buffer));
 	}
 	
 	void Alias(const SlowScanner& s)
-- 
2.43.0


From 3fccac53ab5421ee684d4896fa46ab0203d939a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 13/43] fix: a character range ending beyond Unicode made
 parsing run forever

---
 pire/re_lexer.cpp   | 3 +++
 pire/read_unicode.h | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index b9a6ff5..251b2ae 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -262,6 +262,9 @@ namespace {
 							Error("Wrong character range");
 					}
 
+					if (end > MaxUnicode)
+						Error("Wrong character range");
+
 					for (ch = begin; ch <= end; ++ch) {
 						cs.first.insert(Term::String(1, ch));
 					}
diff --git a/pire/read_unicode.h b/pire/read_unicode.h
index 400ba75..fc8fdfe 100644
--- a/pire/read_unicode.h
+++ b/pire/read_unicode.h
@@ -32,9 +32,10 @@ namespace Pire {
 	public:
 		wchar32 ReadUnicodeCharacter();
 
-	private:
+	protected:
 		static const wchar32 MaxUnicode = 0x10FFFF;
 
+	private:
 		bool IsHexDigit(wchar32 ch);
 		ystring ReadHexDigit(std::function<bool(wchar32, size_t)> shouldStop);
 		wchar32 HexToDec(const ystring& hexStr);
-- 
2.43.0


From 61bf04e51cee23a6773561f5d1b54048176c7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 14/43] fix: concatenating or alternating an Fsm with itself
 wrote out of bounds

---
 pire/fsm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..cbb6925 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -469,6 +469,12 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this) {
+		// Import() cannot read from the automaton it extends
+		Fsm copy(rhs);
+		return *this += copy;
+	}
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -498,6 +504,11 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this) {
+		Fsm copy(rhs);
+		return *this |= copy;
+	}
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From 777de3a56606f3408c5c8550eccf1b8946794d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 15/43] fix: concatenation with an Fsm whose initial state is
 final forgot the words of the left-hand side

---
 pire/fsm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index cbb6925..1c5f4e2 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -491,7 +491,10 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// The initial state of the right-hand side is merged into the final states
+	// of the left-hand one, thus these remain final iff it is
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From fc098843622d08065382ed66bb8fcf533c95e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 16/43] fix: changing or swapping an Fsm after its letters were
 divided into classes changed its language

---
 pire/fsm.cpp            | 47 +++++++++++++++++++++++------------------
 pire/half_final_fsm.cpp |  5 ++++-
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 1c5f4e2..f7abfdd 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -256,6 +256,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(initial, fsm.initial);
 	DoSwap(m_final, fsm.m_final);
 	DoSwap(letters, fsm.letters);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 	DoSwap(determined, fsm.determined);
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
@@ -381,19 +382,9 @@ void Fsm::Import(const Fsm& rhs)
 //     PIRE_IFDEBUG(LOG_DEBUG("fsm") << "=== Left-hand side ===\n" << *this);
 //     PIRE_IFDEBUG(LOG_DEBUG("fsm") << "=== Right-hand side ===\n" << rhs);
 
+	Unsparse();
 	size_t oldsize = Resize(Size() + rhs.Size());
 
-	for (auto&& outer : m_transitions) {
-		for (auto&& letter : letters) {
-			auto targets = outer.find(letter.first);
-			if (targets == outer.end())
-				continue;
-			for (auto&& character : letter.second.second)
-				if (character != letter.first)
-					outer.insert(ymake_pair(character, targets->second));
-		}
-	}
-
 	auto dest = m_transitions.begin() + oldsize;
 	for (auto outer = rhs.m_transitions.begin(), outerEnd = rhs.m_transitions.end(); outer != outerEnd; ++outer, ++dest) {
 		for (auto&& inner : *outer) {
@@ -403,13 +394,15 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
-		for (auto&& letter : rhs.letters) {
-			auto targets = dest->find(letter.first);
-			if (targets == dest->end())
-				continue;
-			for (auto&& character : letter.second.second)
-				if (character != letter.first)
-					dest->insert(ymake_pair(character, targets->second));
+		if (rhs.m_sparsed) {
+			for (auto&& letter : rhs.letters) {
+				auto targets = dest->find(letter.first);
+				if (targets == dest->end())
+					continue;
+				for (auto&& character : letter.second.second)
+					if (character != letter.first)
+						dest->insert(ymake_pair(character, targets->second));
+			}
 		}
 	}
 
@@ -425,10 +418,13 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false;
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
 {
+	if (m_sparsed && (c != Epsilon || letters.Contains(c)))
+		Unsparse(); // the new transition may split the class of the letter
 	m_transitions[from][c].insert(to);
 	ClearHints();
 }
@@ -442,6 +438,8 @@ void Fsm::ConnectFinal(size_t to, Char c /* = Epsilon */)
 
 void Fsm::Disconnect(size_t from, size_t to, Char c)
 {
+	if (m_sparsed && (c != Epsilon || letters.Contains(c)))
+		Unsparse();
 	auto i = m_transitions[from].find(c);
 	if (i != m_transitions[from].end())
 		i->second.erase(to);
@@ -614,9 +612,10 @@ void Fsm::MakeSuffix()
 	
 Fsm& Fsm::Reverse()
 {
+	Unsparse();
+
 	Fsm out;
 	out.Resize(Size() + 1);
-	out.letters = Letters();
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -863,6 +862,8 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	if (!m_sparsed)
+		return;
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
@@ -1013,6 +1014,7 @@ public:
 				}
 			}
 		}
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		return true;
 	}
 
@@ -1106,7 +1108,6 @@ public:
 		mNewFsm.Resize(Classes);
 		mNewFsm.letters = mFsm.letters;
 		mNewFsm.determined = mFsm.determined;
-		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		mNewFsm.SetFinal(0, false);
 
 		// Unite equality classes into new states
@@ -1136,6 +1137,8 @@ public:
 		for (auto&& output : mFsm.outputs)
 			for (auto&& output2 : output.second)
 				mNewFsm.outputs[StateClass[output.first]].insert(ymake_pair(StateClass[output2.first], output2.second));
+
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 	}
 
 	typedef bool Result;
@@ -1166,6 +1169,10 @@ void Fsm::Minimize()
 	// Minimization algorithm is only applicable to a determined FSM.
 	Y_ASSERT(determined);
 
+	// ...and works in terms of letter classes, which Connect() and Disconnect() break up.
+	if (!m_sparsed)
+		Sparse();
+
 	Impl::FsmMinimizeTask task{*this};
 	if (Pire::Impl::Minimize(task)) {
 		task.Output().Swap(*this);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..8988467 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -287,7 +287,10 @@ namespace Pire {
 
 			typedef bool Result;
 
-			Result Success() { return true; }
+			Result Success() {
+				mNewFsm.m_sparsed = true;
+				return true;
+			}
 
 			Result Failure() { return false; }
 
-- 
2.43.0


From 8844e3311a024fa8c083ad33f9d29d576cf40d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 17/43] fix: RemoveDeadEnds() left the Fsm marked as
 determined, which it no longer was

---
 pire/fsm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index f7abfdd..7df448b 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -718,6 +718,8 @@ void Fsm::RemoveDeadEnds()
 			for (auto&& k : j)
 				k.second.erase(i);
 	}
+	if (!dead.empty())
+		determined = false; // some of the transitions are gone
 	ClearHints();
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
-- 
2.43.0


From e67c9f67ca712059b08655d6eb7c30f8d20673b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 18/43] fix: MakeSuffix() accepted words which are not suffixes
 when transitions led to the initial state or into dead ends

---
 pire/fsm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 7df448b..da48d0e 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -604,9 +604,15 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// A suffix may begin in any state which lies on a path to a final one. The old initial state
+	// cannot be used as the new one, since there may be transitions leading back to it.
+	TSet<size_t> dead = DeadStates();
+	size_t newInitial = Resize(Size() + 1);
+	for (size_t i = 0; i < newInitial; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(newInitial, i);
+	initial = newInitial;
+	determined = false;
 	ClearHints();
 }
 	
-- 
2.43.0


From 7a2305821d4073c1c2102e98d4282ba330fdcc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 19/43] fix: the greedy half-final counter counted matches
 twice when a longer match overtook shorter ones

---
 pire/half_final_fsm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 8988467..dda6244 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -186,9 +186,11 @@ namespace Pire {
 
 			void AddState(size_t state, size_t count, bool reachedFinal, bool force = false) {
 				size_t newLastFinalCount = LastFinalCount;
-				if (mFsm.IsFinal(state) && !reachedFinal) {
-					++count;
-					reachedFinal = true;
+				if (mFsm.IsFinal(state)) {
+					if (!reachedFinal) {
+						++count;
+						reachedFinal = true;
+					}
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-- 
2.43.0


From 5ab7f322caa9bf72ee1fa64ccb3027cc73cc4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 20/43] fix: HalfFinalFsm::Compile() returned nothing

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..2e14ed8 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -43,6 +43,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From a6472365f86bb323a3250aeb6e8af3a2d4fc3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 21/43] fix: saving a half-final scanner's state aborted, and
 loading it would have lost the counts

---
 pire/scanners/half_final.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pire/scanners/half_final.h b/pire/scanners/half_final.h
index 5aca343..54bcaed 100644
--- a/pire/scanners/half_final.h
+++ b/pire/scanners/half_final.h
@@ -98,7 +98,7 @@ public:
 			auto stateSizePair = ymake_pair(ScannerState, MatchedRegexps.size());
 			SavePodType(s, stateSizePair);
 			Impl::AlignSave(s, sizeof(ypair<size_t, size_t>));
-			Y_ASSERT(0);
+			Impl::AlignedSaveArray(s, MatchedRegexps.data(), MatchedRegexps.size());
 		}
 
 		void Load(yistream* s) {
@@ -106,9 +106,10 @@ public:
 			ypair<size_t, size_t> stateSizePair;
 			LoadPodType(s, stateSizePair);
 			Impl::AlignLoad(s, sizeof(ypair<size_t, size_t>));
+			TVector<size_t> matched(stateSizePair.second);
+			Impl::AlignedLoadArray(s, matched.data(), matched.size());
 			ScannerState = stateSizePair.first;
-			MatchedRegexps.clear();
-			MatchedRegexps.resize(stateSizePair.second);
+			MatchedRegexps.swap(matched);
 		}
 
 	private:
-- 
2.43.0


From a02c182b1315e3e59dcccfbd56cb8e1aac0dfc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 22/43] fix: Fsm::Sparse() of a sparsed automaton lost the
 letters that were not representatives

---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index da48d0e..436a35f 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -859,6 +859,7 @@ bool Fsm::LettersEquality::operator()(Char a, Char b) const
 
 void Fsm::Sparse(bool needEpsilons /* = false */)
 {
+	Unsparse(); // only representatives of classes may have transitions so far
 	letters = LettersTbl(LettersEquality(m_transitions));
 	for (unsigned letter = 0; letter < MaxChar; ++letter)
 		if (letter != Epsilon || needEpsilons)
-- 
2.43.0


From fb3f8c847c8c3dbab7a69e64167be64b2ebb2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 23/43] fix: approximate matching missed insertions after the
 last letter and swaps across epsilon transitions

CreateApproxFsm() now works on an automaton without epsilon transitions and by
classes of letters, so that it also accepts determined and complemented ones.
---
 pire/approx_matching.cpp | 50 ++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..b9c8555 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -23,28 +23,36 @@
 #include "approx_matching.h"
 
 namespace Pire {
-	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
-		Fsm approxFsm = regexp;
+	Fsm CreateApproxFsm(const Fsm& source, size_t distance) {
+		if (!distance)
+			return source;
 
-		TVector<TSet<Char>> outgoingLettersTable(regexp.Size());
-		for (size_t state = 0; state < regexp.Size(); ++state) {
-			outgoingLettersTable[state] = regexp.OutgoingLetters(state);
-		}
+		// Edits apply to letters, so no epsilon transition may stand between them.
+		// This also builds the classes of letters.
+		Fsm regexp = source;
+		regexp.RemoveEpsilons();
+		const Fsm::LettersTbl letters = regexp.Letters();
 
 		TVector<TMap<Char, Fsm::StatesSet>> destinationsTable(regexp.Size());
 		for (size_t state = 0; state < regexp.Size(); ++state) {
-			for (Char letter : outgoingLettersTable[state]) {
-				destinationsTable[state][letter] = regexp.Destinations(state, letter);
+			for (auto&& letter : letters) {
+				const Fsm::StatesSet& destinations = regexp.Destinations(state, letter.first);
+				if (!destinations.empty())
+					destinationsTable[state][letter.first] = destinations;
 			}
 		}
 
+		regexp.Unsparse();
+		regexp.SetIsDetermined(false);
+		Fsm approxFsm = regexp;
+
 		for (size_t fsmIdx = 0; fsmIdx < distance; ++fsmIdx) {
 			approxFsm.Import(regexp);
 			const auto shift = fsmIdx * regexp.Size();
 
 			for (size_t state = 0; state < regexp.Size(); ++state) {
-				for (Char letter : outgoingLettersTable[state]) {
-					for (size_t to : destinationsTable[state][letter]) {
+				for (auto&& row : destinationsTable[state]) {
+					for (size_t to : row.second) {
 						for (Char ch = 0; ch < MaxChar; ++ch) {
 							if (!approxFsm.Connected(state + shift, to + shift, ch)) {
 								approxFsm.Connect(state + shift, to + shift + regexp.Size(), ch);
@@ -53,10 +61,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < MaxChar; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
@@ -65,23 +73,25 @@ namespace Pire {
 			}
 		}
 
-		size_t maxState = (distance > 0) ? approxFsm.Size() - regexp.Size() : 0;
+		size_t maxState = approxFsm.Size() - regexp.Size();
 		for (size_t state = 0; state < maxState; ++state) {
 			size_t currentDist = state / regexp.Size();
 			size_t intState = state % regexp.Size();
 
-			for (Char firstLetter : outgoingLettersTable[intState]) {
-				for (size_t firstDest : destinationsTable[intState][firstLetter]) {
-					for (Char secondLetter : outgoingLettersTable[firstDest]) {
-						for (size_t secondDest : destinationsTable[firstDest][secondLetter]) {
+			for (auto&& first : destinationsTable[intState]) {
+				for (size_t firstDest : first.second) {
+					for (auto&& second : destinationsTable[firstDest]) {
+						for (size_t secondDest : second.second) {
 							if (secondDest != intState || firstDest != intState) {
 								approxFsm.Resize(approxFsm.Size() + 1);
 
 								size_t to = secondDest + (currentDist + 1) * regexp.Size();
 								size_t middle = approxFsm.Size() - 1;
 
-								approxFsm.Connect(state, middle, secondLetter);
-								approxFsm.Connect(middle, to, firstLetter);
+								for (Char letter : letters.Klass(second.first))
+									approxFsm.Connect(state, middle, letter);
+								for (Char letter : letters.Klass(first.first))
+									approxFsm.Connect(middle, to, letter);
 							}
 						}
 					}
-- 
2.43.0


From 08d94c7aabc4ee96caa3f30856db333146658ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 24/43] fix: create the character class and glyph tables once
 when several threads need them first

Singleton() tested and set a plain pointer, so two threads parsing their
first pattern at the same time raced on it.
---
 pire/stub/singleton.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pire/stub/singleton.h b/pire/stub/singleton.h
index 0079cac..21b8a20 100644
--- a/pire/stub/singleton.h
+++ b/pire/stub/singleton.h
@@ -26,13 +26,10 @@
 
 namespace Pire {
 	
-	// FIXME: not thread safe.
 	template<class T>
 	T* Singleton()
 	{
-		static T* p = 0;
-		if (!p)
-			p = new T;
+		static T* p = new T;
 		return p;
 	}
 	template<class T>
-- 
2.43.0


From c4c10c0e095fa56ecb4dc26e5aab90adba5b0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 25/43] fix: SlowCapturingScanner reported captures without a
 match and missed those next to the marks

The match was looked for before the EndMark had been seen, and only the
transitions of state 0 were taken through the BeginMark.
---
 pire/extra/capture.h | 81 +++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index e905b0c..ba00ff9 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -451,72 +451,45 @@ public:
 		}
 	}
 
-	bool Captured(const SingleState& st, bool& matched) const
+	// Finds the final state which has the highest priority among those
+	// the given state leads to at the end of a string, if there are any.
+	bool GetFinal(const SingleState& st, size_t pos, TVector<bool>& used, SingleState& final) const
 	{
-		matched = false;
 		if (IsFinal(st.GetNum())) {
-			matched = true;
-			if (st.HasBegin())
-				return true;
+			final = st;
+			return true;
 		}
-		TVector<Transition> nextStates;
-		NextStates(st, Translate(EndMark), nextStates);
-		for (const auto& trans : nextStates)
-		{
-			size_t state = trans.GetState();
-			if (IsFinal(state)) {
-				matched = true;
-				if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
+		PriorityStates states;
+		NextAndGetToGroups(states, st, Translate(EndMark), pos, used);
+		for (const auto type : {NonGreedyRepetition, NoRepetition, GreedyRepetition}) {
+			for (const auto& state : states.Get(type)) {
+				if (IsFinal(state.GetNum())) {
+					final = state;
 					return true;
-			} else { // After EndMark there can be Epsilon-transitions to the Final State
-				TVector<Transition> epsilonTrans;
-				SingleState newSt(state);
-				NextStates(newSt, Translate(Epsilon), epsilonTrans);
-				for (auto new_trans : epsilonTrans) {
-					size_t fin = new_trans.GetState();
-					if (IsFinal(fin)) {
-						matched = true;
-						if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-							return true;
-					}
 				}
 			}
 		}
 		return false;
 	}
 
-	bool Matched(const SingleState& st) const
-	{
-		bool matched;
-		Captured(st, matched);
-		return matched;
-	}
-
 	bool GetCapture(const State& st, SingleState& final) const
 	{
-		size_t pos = 0;
-		bool matched = false;
-		bool ans = false;
-		while (pos < st.GetSize() && !matched) {
-			ans = Captured(st.GetState(pos), matched);
-			++pos;
+		TVector<bool> used(GetSize());
+		for (const auto& state : st.GetStates()) {
+			if (GetFinal(state, st.GetPos(), used, final))
+				return final.Captured();
 		}
-		if (matched) {
-			final = st.GetState(pos - 1);
-			return ans;
-		} else {
-			if (st.IsMatched()) {
-				final = st.GetMatched();
-				return true;
-			}
-			return false;
+		if (st.IsMatched()) {
+			final = st.GetMatched();
+			return final.Captured();
 		}
+		return false;
 	}
 
 	bool PushState(State& nlist, const SingleState& state) const
 	{
 		nlist.PushState(state);
-		if (Matched(state)) {
+		if (IsFinal(state.GetNum())) {
 			nlist.AddMatch(state);
 			return true;
 		}
@@ -536,11 +509,19 @@ public:
 
 	void Initialize(State& nlist) const
 	{
-		PriorityStates states;
+		// Anything that matches an empty string may come before the BeginMark
+		PriorityStates before;
 		SingleState init(GetStart());
 		TVector<bool> used(GetSize());
-		NextAndGetToGroups(states, init, Translate(BeginMark), 0, used);
-		NextAndGetToGroups(states, 0, Translate(BeginMark), 0, used);
+		used[init.GetNum()] = true;
+		NextAndGetToGroups(before, init, Translate(Epsilon), 0, used);
+		before.Push(init, NoRepetition);
+
+		PriorityStates states;
+		used.assign(GetSize(), false);
+		for (const auto type : {NonGreedyRepetition, NoRepetition, GreedyRepetition})
+			for (const auto& state : before.Get(type))
+				NextAndGetToGroups(states, state, Translate(BeginMark), 0, used);
 		UpdateNList(nlist, states);
 	}
 
-- 
2.43.0


From 00f1974afd51255f630cbbe39d6189b79c8a6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 26/43] fix: gluing scanners into more than 262143 states read
 outside the state lookup table

A limit larger than the table is allowed, so the table grows when it is
half full. Its hash reached only a fraction of the slots, which made
filling a large table take minutes; it now uses all bits of both states.
---
 pire/glue.h | 54 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/pire/glue.h b/pire/glue.h
index 456c30a..e1dbe23 100644
--- a/pire/glue.h
+++ b/pire/glue.h
@@ -62,12 +62,14 @@ public:
 	typedef const value_type* const_iterator;
 
 	GluedStateLookupTable()
-		: mMap(new value_type[N])
+		: mSize(N)
+		, mCount(0)
+		, mMap(new value_type[N])
 		, mFilled(N, false)
 	{}
 	
 	const_iterator end() const {
-		return mMap.get() + MaxSize;
+		return mMap.get() + mSize;
 	}
 	// Note that in fact mMap is sparsed and traditional [begin,end)
 	// traversal is unavailable; hence no begin() method here.
@@ -79,29 +81,51 @@ public:
 
 	ypair<iterator, bool> insert(const value_type& v) {
 		size_t ind = Search(v.first);
-		if (!mFilled[ind]) {
-			mMap[ind] = v;
-			mFilled[ind] = true;
-			return ymake_pair(mMap.get() + ind, true);
-		} else
+		if (mFilled[ind])
 			return ymake_pair(mMap.get() + ind, false);
+		if (mCount + 1 > mSize / 2) {
+			Grow();
+			ind = Search(v.first);
+		}
+		mMap[ind] = v;
+		mFilled[ind] = true;
+		++mCount;
+		return ymake_pair(mMap.get() + ind, true);
 	}
 
 private:
+	// The table is never more than half full, so there is always a free slot to stop at
 	size_t Search(const key_type& st) const {
-		size_t startInd = (Hash(st) % N);
-		for (size_t ind = startInd; ind != (startInd + N - 1) % N; ind = (ind + 1) % N) {
-			if (!mFilled[ind] || mMap[ind].first == st) {
-				return ind;
-			}
-		}
-		return -1;
+		size_t ind = Hash(st) % mSize;
+		while (mFilled[ind] && mMap[ind].first != st)
+			ind = (ind + 1) % mSize;
+		return ind;
+	}
+
+	void Grow() {
+		GluedStateLookupTable larger(mSize * 2);
+		for (size_t ind = 0; ind != mSize; ++ind)
+			if (mFilled[ind])
+				larger.insert(mMap[ind]);
+		DoSwap(mSize, larger.mSize);
+		DoSwap(mMap, larger.mMap);
+		DoSwap(mFilled, larger.mFilled);
 	}
 
 	static size_t Hash(const key_type& st) {
-		return size_t((st.first >> 2) ^ (st.second >> 4) ^ (st.second << 10));
+		ui64 h = (ui64(st.first) * 0x9E3779B97F4A7C15ULL) ^ ui64(st.second);
+		return size_t((h * 0xC2B2AE3D27D4EB4FULL) >> 32);
 	}
 
+	explicit GluedStateLookupTable(size_t size)
+		: mSize(size)
+		, mCount(0)
+		, mMap(new value_type[size])
+		, mFilled(size, false)
+	{}
+
+	size_t mSize;
+	size_t mCount;
 	std::unique_ptr<value_type[]> mMap;
 	TVector<bool> mFilled;
 
-- 
2.43.0


From a4b8f0c7e6e9a50ec2e4cdb18b4e1e08ba12bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 27/43] fix: SlowCapturingScanner::Initialize() kept the
 position and the captures of the state's previous text

---
 pire/extra/capture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index ba00ff9..1a2eb77 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -509,6 +509,7 @@ public:
 
 	void Initialize(State& nlist) const
 	{
+		nlist = State();
 		// Anything that matches an empty string may come before the BeginMark
 		PriorityStates before;
 		SingleState init(GetStart());
-- 
2.43.0


From 56e38e08139d38e61649b424049f5162d929aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 28/43] fix: a greedy half-final counter lost the matches it
 had counted behind a longer one that failed

---
 pire/half_final_fsm.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index dda6244..dc0068a 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -134,7 +134,7 @@ namespace Pire {
 						next.AddState(nextState, state.Count, state.ReachedFinal);
 					}
 				}
-				next.FinishBuild(maxCount, States.back().Count);
+				next.FinishBuild(maxCount);
 				if (letter == EndMark) {
 					next.ToAdd += next.LastFinalCount;
 					next.LastFinalCount = 0;
@@ -204,11 +204,9 @@ namespace Pire {
 				}
 			}
 
-			void FinishBuild(size_t maxCount, size_t lastCount = 0) {
-				if (!States.empty() && mFsm.IsFinal(States.back().State)) {
-					lastCount = States.back().Count;
-				}
-				AddState(mFsm.Initial(), lastCount, false, true);
+			void FinishBuild(size_t maxCount) {
+				// a match which starts here follows those counted so far
+				AddState(mFsm.Initial(), LastFinalCount, false, true);
 				LastFinalCount = std::min(LastFinalCount, maxCount);
 				size_t minCount = States[0].Count;
 				for (auto& state : States) {
-- 
2.43.0


From 68242518237f75b1d35d18bb06735dd8a8477fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 29/43] fix: SetInitial() on a union of automata left it marked
 as one, so a following |= gave a wrong language

---
 pire/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/fsm.h b/pire/fsm.h
index 7568462..78cb0d6 100644
--- a/pire/fsm.h
+++ b/pire/fsm.h
@@ -181,7 +181,7 @@ namespace Pire {
 		/// Checks whether two states are connected using any letter.
 		bool Connected(size_t from, size_t to) const;
 		size_t Initial() const { return initial; }
-		void SetInitial(size_t init) { initial = init; }
+		void SetInitial(size_t init) { initial = init; ClearHints(); }
 		
 		const LettersTbl& Letters() const { return letters; }
 		
-- 
2.43.0


From 7dd5f537b3d73c06c6abf0e59e915b5bf4766eac Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 30/43] fix: pire_inline reported success when its output could
 not be written

---
 pire/inline.lpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 174d2e3..b08f63b 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -259,6 +259,9 @@ int main(int argc, char** argv)
 
 		fprintf(yyout, "#line 1 \"%s\"\n", filename.c_str());
 		yylex();
+		bool failed = ferror(yyout);
+		if (fclose(yyout) || failed)
+			Die() << "cannot write the output";
 		return 0;
 	}
 	catch (std::exception& e) {
-- 
2.43.0


From 76eaf9fac657d4ace40d3c90286d194f5268f9f2 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 31/43] fix: pire_inline cut its messages at the first blank
 and lost the reason an expression was refused for

---
 pire/inline.lpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index b08f63b..4a5b68e 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -27,6 +27,7 @@
 #include <vector>
 #include <string>
 #include <stdexcept>
+#include <sstream>
 #include "stub/lexical_cast.h"
 #include "stub/saveload.h"
 #include "stub/memstreams.h"
@@ -49,7 +50,9 @@ public:
 
 	template<class T>
 	Die& operator << (const T& t) {
-		Msg += ToString(t);
+		std::ostringstream s;
+		s << t;
+		Msg += s.str();
 		return *this;
 	}
 
-- 
2.43.0


From 70f11bc6f7faa42498284f3d5a7ab6ca5f276a34 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 32/43] fix: pire_inline lost characters behind asterisks in
 comments, did not end on an unclosed one and missed continued ones

---
 pire/inline.lpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 4a5b68e..3df9985 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -24,6 +24,7 @@
 
 #include <stub/hacks.h>
 #include <stdio.h>
+#include <algorithm>
 #include <vector>
 #include <string>
 #include <stdexcept>
@@ -71,6 +72,7 @@ Die DieHelper() {
 void putChar(char c) { putc(c, yyout); }
 void suppressChar(char) {}
 void eatComment(void (*action)(char));
+void countLines();
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -80,8 +82,8 @@ void eatComment(void (*action)(char));
 
 <INITIAL>"/*"            { eatComment(putChar); }
 <Regexp>"/*"             { eatComment(suppressChar); }
-<INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
-<Regexp>"//".*\n         { ++line; }
+<INITIAL>"//"([^\n]|\\\r?\n)*  { ECHO; countLines(); }
+<Regexp>"//"([^\n]|\\\r?\n)*   { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
 "\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
@@ -208,26 +210,23 @@ void eatComment(void (*action)(char));
 
 void eatComment(void (*action)(char))
 {
-	int c;
+	int c, prev = 0;
 	action('/'); action('*');
-	for (;;) {
-		while ((c = yyinput()) != EOF && c != '*') {
-			if (c == '\n')
-				++line;
-			action(c);
-		}
-		if (c == '*') {
-			action(c);
-			while ((c = yyinput()) == '*')
-				action(c);
-			if (c == '/') {
-				action(c);
-				break;
-			}
-		}
-		if (c == EOF)
-			Die() << "EOF in comment";
+	// At the end of file yyinput() returns either EOF or zero, depending on the version of flex.
+	while ((c = yyinput()) != EOF && c) {
+		if (c == '\n')
+			++line;
+		action(c);
+		if (prev == '*' && c == '/')
+			return;
+		prev = c;
 	}
+	Die() << "EOF in comment";
+}
+
+void countLines()
+{
+	line += std::count(yytext, yytext + yyleng, '\n');
 }
 
 int yywrap() { return 1; }
-- 
2.43.0


From 0e502065372367d41b808c48faf44d91563f5999 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 33/43] fix: pire_inline misread string and character literals:
 quotes behind backslashes, octal and hexadecimal escapes, continued lines

---
 pire/inline.lpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 3df9985..5f77d8b 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -85,12 +85,15 @@ void countLines();
 <INITIAL>"//"([^\n]|\\\r?\n)*  { ECHO; countLines(); }
 <Regexp>"//"([^\n]|\\\r?\n)*   { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\]|\\(.|\n))*"\""  { ECHO; countLines(); }
+"'"([^'\\\n]|\\.)*"'"         { ECHO; }
+"."?[0-9]([0-9A-Za-z_.]|'[0-9A-Za-z_]|[eEpP][+-])*  { ECHO; }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"]|\\.)*"\"" {
+<Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
+	countLines();
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
@@ -104,16 +107,24 @@ void countLines();
 				s.push_back('\n');
 			else if (*p == 't')
 				s.push_back('\t');
-			else if (isdigit(*p)) {
+			else if (*p == '\n')
+				; // a continued line
+			else if (*p == '\r' && p[1] == '\n')
+				++p;
+			else if (*p >= '0' && *p <= '7') {
 				const char* beg = p;
-				while (isdigit(*p))
+				while (p - beg < 3 && *p >= '0' && *p <= '7')
 					++p;
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 8));
+				--p;
 			} else if (*p == 'x') {
-				const char* beg = p;
-				while (isdigit(*p) || (*p > 'a' && *p <= 'f') || (*p > 'A' && *p < 'F'))
+				const char* beg = ++p;
+				while (isxdigit(static_cast<unsigned char>(*p)))
 					++p;
+				if (p == beg)
+					Die() << "\\x used with no following hex digits";
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 16));
+				--p;
 			} else
 				Die() << "unknown escape sequence (\\" <<  *p << ")";
 		} else
-- 
2.43.0


From 1f6faa0ac79626b81acc1c059b4c044f23166b81 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 34/43] fix: pire_inline accepted unfinished and malformed
 PIRE_REGEXP() and took part of a longer name for one

---
 pire/inline.lpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 5f77d8b..b29e46e 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -91,7 +91,8 @@ void countLines();
 \n                       { ++line; putc('\n', yyout); }
 
 
-<INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
+<INITIAL>[A-Za-z_][A-Za-z_0-9]*  { ECHO; }
+<INITIAL>"PIRE_REGEXP"[[:space:]]*"(" { countLines(); BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	countLines();
 	ystring& s = args.back();
@@ -133,7 +134,7 @@ void countLines();
 	if (!*p)
 		Die() << "string ends with a backslash";
 }
-<Regexp>[ \t]            {}
+<Regexp>[ \t\r\f\v]|\\\r?\n  { countLines(); }
 <Regexp>\n               { ++line; }
 <Regexp>","              { args.push_back(ystring()); }
 <Regexp>")" {
@@ -212,6 +213,8 @@ void countLines();
 		(unsigned int) buf.Buffer().Size(), line, filename.c_str());
 	BEGIN(INITIAL);
 }
+<Regexp><<EOF>>          { Die() << "EOF in PIRE_REGEXP()"; }
+<Regexp>.                { Die() << "unexpected character in PIRE_REGEXP(): " << yytext; }
 <INITIAL>.               { putc(*yytext, yyout); }
 
 
-- 
2.43.0


From dcba90805d1f62bd17e74e44a0b1745aea9181a5 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 35/43] fix: a pattern with line breaks or a backslash at its
 end broke out of the comment pire_inline writes

---
 pire/inline.lpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index b29e46e..5280cf4 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -200,7 +200,14 @@ void countLines();
 	AlignedOutput stream(&buf);
 	Save(&stream, sc);
 
-	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // %s \n    \"", pattern.c_str());
+	// The quotes keep a backslash at the end of the pattern from continuing the comment.
+	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // \"");
+	for (auto&& c : pattern)
+		if (iscntrl(static_cast<unsigned char>(c)))
+			fprintf(yyout, "\\x%02X", static_cast<unsigned char>(c));
+		else
+			putc(c, yyout);
+	fprintf(yyout, "\"\n    \"");
 	size_t pos = 5;
 	for (auto i = buf.Buffer().Begin(), ie = buf.Buffer().End(); i != ie; ++i) {
 		pos += fprintf(yyout, "\\x%02X", static_cast<unsigned char>(*i));
-- 
2.43.0


From f4c64bf096232095daecac3900023df228bbba07 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 36/43] fix: pire_inline took the bytes of UTF-8 patterns for
 characters

---
 pire/inline.lpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 5280cf4..4049fcc 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -147,7 +147,8 @@ void countLines();
 	ystring pattern;
 	for (auto i = args.begin(), ie = args.end(); i != ie; i += 2) {
 
-		Pire::Lexer lexer(i->c_str(), i->c_str() + i->size());
+		Pire::Lexer lexer;
+		const Pire::Encoding* encoding = &Pire::Encodings::Latin1();
 		bool surround = false;
 		bool greedy = false;
 		bool reverse = false;
@@ -155,7 +156,7 @@ void countLines();
 			if (*option == 'i')
 				lexer.AddFeature(Pire::Features::CaseInsensitive());
 			else if (*option == 'u')
-				lexer.SetEncoding(Pire::Encodings::Utf8());
+				encoding = &Pire::Encodings::Utf8();
 			else if (*option == 's')
 				surround = true;
 			else if (*option == 'a')
@@ -170,6 +171,10 @@ void countLines();
 
 		Pire::Fsm fsm;
 		try {
+			TVector<wchar32> ucs4;
+			encoding->FromLocal(i->data(), i->data() + i->size(), std::back_inserter(ucs4));
+			lexer.Assign(ucs4.begin(), ucs4.end());
+			lexer.SetEncoding(*encoding);
 			fsm = lexer.Parse();
 		}
 		catch (std::exception& e) {
-- 
2.43.0


From ef64bb64e5f3022fcd3978bef25025cbb7308479 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 37/43] fix: pire_inline embedded an empty scanner for
 expressions too complex to be glued

---
 pire/inline.lpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 4049fcc..3b5586f 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -196,6 +196,8 @@ void countLines();
 			tsc.Swap(sc);
 		} else {
 			sc = Pire::Scanner::Glue(sc, tsc);
+			if (sc.Empty())
+				Die() << "expressions are too complex to be put into one scanner";
 			pattern += " | ";
 			pattern += *i;
 		}
-- 
2.43.0


From 5ef1297ab017703438295d29a2fae427700aa36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 38/43] fix: characters U+F000..U+F0FF and U+1F000..U+1F0FF in
 patterns were taken for escapes

The lexer marked an escaped character by or-ing 0xF000 to it, which is a
character of its own (as is, by the mask, any U+xF0yy). Patterns with such
characters were refused or got the language of another pattern, and an
escaped U+00FF was dropped as an end of input.
---
 pire/re_lexer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 2b974fa..05f56b9 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -46,9 +46,10 @@ class ParserValues;
 namespace Consts {
 enum { Inf = -1 };
 
-static const wchar32 Control     = 0xF000;
-static const wchar32 ControlMask = 0xFF00;
-static const wchar32 End         = Control | 0xFF;
+// These lie outside of Unicode, in order not to be confused with characters of the pattern
+static const wchar32 Control     = 0x80000000;
+static const wchar32 ControlMask = 0x80000000;
+static const wchar32 End         = 0xFFFFFFFF;
 };
 
 using namespace Consts;
-- 
2.43.0


From 48779ad3ce7c1d0e5ac8101e94f467ef93921b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 39/43] fix: a range of characters starting with a literal NUL
 lost all but its ends

---
 pire/re_lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 251b2ae..9b5f071 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -194,7 +194,7 @@ void Lexer::Parenthesized(Fsm& fsm)
 
 wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
-	bool ctrl = (strchr(controls, c & 0xFF) != 0);
+	bool ctrl = ((c & 0xFF) && strchr(controls, c & 0xFF) != 0);
 	if ((c & ControlMask) == Control && ctrl)
 		return c & ~ControlMask;
 	if (c <= 0xFF && ctrl)
-- 
2.43.0


From 85db7d1bb27bac74fba8aa2dce3ea29905af8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 40/43] fix: greedy counters that can never count anything made
 non-relocatable scanners crash

---
 pire/half_final_fsm.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index dc0068a..45f430a 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -110,7 +110,6 @@ namespace Pire {
 		if (simplify) {
 			fsm.Minimize();
 		}
-		fsm.RemoveDeadEnds();
 	}
 
 	namespace Impl {
-- 
2.43.0


From aa8f01efadfa1b7359d37f908a5cce1e8d0eaffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 41/43] fix: blacklist reported success when its dictionary,
 input or output was lost

---
 samples/blacklist/blacklist.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/samples/blacklist/blacklist.cpp b/samples/blacklist/blacklist.cpp
index 0124963..35db1b7 100644
--- a/samples/blacklist/blacklist.cpp
+++ b/samples/blacklist/blacklist.cpp
@@ -68,10 +68,17 @@ void Generate(const std::string& outputFile)
     std::string domain;
     while (std::cin >> domain)
         re |= Pire::Fsm().Append(domain);
+    if (std::cin.bad())
+        throw std::runtime_error("read error");
     re = Pire::Lexer("^([a-z]+://)?([A-Za-z0-9\\-]+\\.)*").Parse() + re + Pire::Lexer("(/.*)?$").Parse();
     
     std::fstream ofs(outputFile.c_str(), std::ios::out | std::ios::binary);
+    if (!ofs)
+        throw std::runtime_error("cannot open file " + outputFile);
     Pire::Scanner(re).Save(&ofs);
+    ofs.close();
+    if (!ofs)
+        throw std::runtime_error("cannot write to file " + outputFile);
 }
 
 void Filter(const Pire::Scanner& sc)
@@ -81,6 +88,10 @@ void Filter(const Pire::Scanner& sc)
         if (Pire::Runner(sc).Begin().Run(url).End())
             std::cout << url << std::endl;
     }
+    if (std::cin.bad())
+        throw std::runtime_error("read error");
+    if (!std::cout)
+        throw std::runtime_error("write error");
 }
 
 void Use(const std::string& filename)
-- 
2.43.0


From 7b187a7981350003b1167713d0a53eea60e16a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 42/43] fix: pigrep took read errors for ends of files and
 ignored lost output

---
 samples/pigrep/pigrep.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/pigrep/pigrep.cpp b/samples/pigrep/pigrep.cpp
index 5918ad0..54c38f0 100644
--- a/samples/pigrep/pigrep.cpp
+++ b/samples/pigrep/pigrep.cpp
@@ -42,6 +42,10 @@ void GrepStream(std::istream& stream, const Pire::Scanner& sc, const std::string
         if (Pire::Runner(sc).Begin().Run(line).End())
             std::cout << prefix << line << std::endl;
     }
+    if (stream.bad())
+        throw std::runtime_error("read error");
+    if (!std::cout)
+        throw std::runtime_error("write error");
 }
 
 void Usage()
-- 
2.43.0


From e046a9c139cf28726fb58e4697cd079a1be10154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 43/43] fix: pigrep named the first file when another could not
 be opened

---
 samples/pigrep/pigrep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/pigrep/pigrep.cpp b/samples/pigrep/pigrep.cpp
index 54c38f0..4ad0e84 100644
--- a/samples/pigrep/pigrep.cpp
+++ b/samples/pigrep/pigrep.cpp
@@ -102,7 +102,7 @@ int main(int argc, char** argv)
                 if (*filename != std::string("-")) {
                     fs.open(*filename);
                     if (!fs)
-                        throw std::runtime_error("cannot open file " + std::string(argv[0]));
+                        throw std::runtime_error("cannot open file " + std::string(*filename));
                     prefix = *filename;
                     s = &fs;
                 }
-- 
2.43.0

