From ac6b74857b62735c9279b35475861d771584495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 01/41] fix: apply namespace rules to whole namespace names
 only

A rule such as '-namespace root::a' was matched as a plain text prefix, so
it also hit the unrelated sibling namespace 'root::abc'.  The documentation
promises that a rule covers the named namespace and its descendants.
---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..53c1dab 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+/// check if namespace rule cover given namespace, i.e. if it name namespace itself or one of the enclosing namespaces
+static bool is_namespace_covered_by_rule(string const &namespace_, string const &rule)
+{
+	if( not begins_with(namespace_, rule) ) return false;
+	return rule.empty() or namespace_.size() == rule.size() or ends_with(rule, "::") or namespace_.compare(rule.size(), 2, "::") == 0;
+}
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_namespace_covered_by_rule(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_namespace_covered_by_rule(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_namespace_covered_by_rule(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_namespace_covered_by_rule(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From fe31ccf0c36101648d1629eefa9e8ee3d96f3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 02/41] fix: do not export values of scoped enums declared with
 enum struct

---
 source/enum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/enum.cpp b/source/enum.cpp
index b538d73..ea72dfa 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -139,7 +139,7 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 	}
 	r.pop_back();
 
-	return r + (E->isScopedUsingClassTag() ? ";\n\n" : "\n\t\t.export_values();\n\n");
+	return r + (E->isScoped() ? ";\n\n" : "\n\t\t.export_values();\n\n");
 }
 
 
-- 
2.43.0


From 63ed2ef154c5dcc9df9f311566f0bd3e79386079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:38 +0000
Subject: [PATCH 03/41] fix: ignore spaces when matching enum and field
 directives

---
 source/config.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 53c1dab..3858fa1 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -393,12 +393,18 @@ bool Config::is_class_skipping_requested(string const &class__) const
 
 bool Config::is_field_skipping_requested(string const &field_) const
 {
-	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field_) != fields_to_skip.end();
+	string field{field_};
+	field.erase(std::remove(field.begin(), field.end(), ' '), field.end());
+
+	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field) != fields_to_skip.end();
 }
 
 
-bool Config::is_enum_binding_requested(string const &enum_) const
+bool Config::is_enum_binding_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_bind.begin(), enums_to_bind.end(), enum_);
 
 	if( bind != enums_to_bind.end() ) return true;
@@ -407,8 +413,11 @@ bool Config::is_enum_binding_requested(string const &enum_) const
 }
 
 
-bool Config::is_enum_skipping_requested(string const &enum_) const
+bool Config::is_enum_skipping_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_skip.begin(), enums_to_skip.end(), enum_);
 
 	if( bind != enums_to_skip.end() ) return true;
-- 
2.43.0


From a3c739ff78fbd52ed5b29b54340403fbae5e53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 04/41] fix: generate trampoline exception specification from
 its kind, not from bits of it

---
 source/class.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..446fac2 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -761,10 +761,17 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 				string exception_specification;
 				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+					switch( fpt->getExceptionSpecType() ) { // note: values of ExceptionSpecificationType are not bit-flags
+						case EST_None:
+						case EST_MSAny:
+#if( LLVM_VERSION_MAJOR > 6 )
+						case EST_NoexceptFalse:
+#endif
+							break;
+						case EST_DynamicNone:
+						case EST_Dynamic: exception_specification = "throw() "; break;
+						default: exception_specification = "noexcept "; break;
+					}
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
-- 
2.43.0


From ea17495f7d567d1313e87b1addde8650adf49dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 05/41] fix: do not loop forever when maximum file size is too
 small

---
 source/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..887c77c 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -392,7 +392,8 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		// always process at least one binder so we advance even if maximum_file_length is smaller than code for namespace binders
+		for( uint begin = i; (i == begin or code.size() < config.maximum_file_length) and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 75ce5dfa3802d404cc49f7cf0f6d2407151b7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:34 +0000
Subject: [PATCH 06/41] fix: avoid file and function name collisions between
 generated files

---
 source/context.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 887c77c..4cf715b 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -330,6 +330,9 @@ void Context::generate(Config const &config)
 	vector<string> binding_function_names;
 
 	std::map<string, int> file_names;
+
+	std::set<string> function_names; // all function names in use, different headers could lead to the same file or function name
+	if( not O_single_file ) function_names.insert("bind_" + config.root_module); // this file name is taken by root module
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
@@ -345,19 +348,17 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string const np = O_flat ? config.root_module + "_" : file_name_prefix_for_binder(binders[i]);
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		string file_name, function_name;
+		do {
+			if( O_flat ) file_name = np + std::to_string(file_names[np]);
+			else file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			++file_names[np];
+
+			function_name = "bind_" + replace_(file_name, "/", "_");
+		} while( not function_names.insert(function_name).second );
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From 2892f627cbd610395794f1b2b06b7e82967d954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:15 +0000
Subject: [PATCH 07/41] fix: do not rewrite identifiers that contain _Bool

---
 source/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..571e173 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -198,10 +198,10 @@ string last_namespace(string const &ns)
 void fix_boolean_types(string &type)
 {
 	static string const B("_Bool");
+	auto is_identifier_char = [](char c) { return std::isalpha(c) or std::isdigit(c) or c == '_'; };
 	size_t i = 0;
 	while( (i = type.find(B, i)) != string::npos ) {
-		if( (i == 0 or (!std::isalpha(type[i - 1]) and !std::isdigit(type[i - 1]))) and (i + B.size() == type.size() or (!std::isalpha(type[i + B.size()]) and !std::isdigit(type[i + B.size()]))) )
-			type.replace(i, B.size(), "bool");
+		if( (i == 0 or !is_identifier_char(type[i - 1])) and (i + B.size() == type.size() or !is_identifier_char(type[i + B.size()])) ) type.replace(i, B.size(), "bool");
 		++i;
 	}
 }
-- 
2.43.0


From 4e202fe6c0be57c52ecdb4ea417bc74f627db379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:15 +0000
Subject: [PATCH 08/41] fix: only add std:: to unqualified nullptr_t and not to
 names that contain it

---
 source/type.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index ab52d34..8be994c 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -488,6 +488,21 @@ std::string standard_name(clang::QualType const &qt)
 }
 
 
+// replace unqualified nullptr_t types with std::nullptr_t
+void fix_nullptr_types(string &type)
+{
+	static string const N("nullptr_t"), std_("std::");
+	auto is_identifier_char = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) or c == '_'; };
+	for( size_t i = 0; (i = type.find(N, i)) != string::npos; i += N.size() ) {
+		bool begin = i == 0 or (!is_identifier_char(type[i - 1]) and type[i - 1] != ':');
+		bool end = i + N.size() == type.size() or !is_identifier_char(type[i + N.size()]);
+		if( begin and end ) {
+			type.insert(i, std_);
+			i += std_.size();
+		}
+	}
+}
+
 // transform give type name to standard form
 string standard_name_raw(string const &type)
 {
@@ -508,14 +523,13 @@ string standard_name_raw(string const &type)
 
 		make_pair("class std::__thread_id", "std::thread::id"), make_pair("std::__thread_id", "std::thread::id"),
 
-		make_pair("nullptr_t", "std::nullptr_t"),
-
 		// make_pair("const class ", "const "),
 		// make_pair("const struct ", "const "),
 	};
 
 	string r(type);
 	for( auto &p : name_map ) replace(r, p.first, p.second);
+	fix_nullptr_types(r);
 
 	// static vector< string > const prefixes = {
 	// 	"enum ",
-- 
2.43.0


From 707f3afc79445519e983d205e396a27d23c33bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 09/41] fix: do not turn multiset element type into pointer
 when simplifying std names

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 8be994c..e8401d6 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -640,7 +640,7 @@ string simplify_std_class_name_raw(string const &type)
 			make_pair("forward_list<(.*), *std::allocator<\\1 *> *>", "forward_list<\\1>"),
 			make_pair("map<(.*),(.*), *std::less<\\1 *>, *std::allocator<std::pair<const \\1, \\2 *> *> *>", "map<\\1,\\2>"),
 
-			make_pair("multiset<(.*), *std::less<(.*)>, *std::allocator<(.*)>>", "multiset<\\1 *>"),
+			make_pair("multiset<(.*), *std::less<\\1 *>, *std::allocator<\\1 *> *>", "multiset<\\1>"),
 			make_pair("multimap<(.*),(.*), *std::less<\\1>, *std::allocator<std::pair<const \\1, \\2 *> *> *>", "multimap<\\1,\\2>"),
 
 			// LLVM-3.7
-- 
2.43.0


From e32378aa953313adba9309d3b0d1ae7b8f919edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:34 +0000
Subject: [PATCH 10/41] fix: do not replace hidden overrides by base class
 versions in trampolines

---
 source/class.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 446fac2..fd5917c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -712,11 +712,8 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 	string c;
 
 	for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-		if( (m->getAccess() != AS_private) and is_bindable(*m) and is_overloadable(*m) //
-			and !is_skipping_requested(*m, Config::get()) //
+		if( is_bindable(*m) and is_overloadable(*m) //
 			and !isa<CXXConstructorDecl>(*m) and !isa<CXXDestructorDecl>(*m) and m->isVirtual() //
-			and !is_const_overload(
-					*m) // was ( !is_const_overload(*m) or m->isPure() ) but now we ignoring this case since it is not possible to overload both const and non-const variants in Python anyway
 		) {
 
 
@@ -746,8 +743,13 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				binded.insert(key);
 
 				// m->hasAttr<OverrideAttr>, attribute list is automatically generated, see <release>/tools/clang/include/clang/Basic/AttrList.inc for attribute list
-				if( m->hasAttr<FinalAttr>() )
-					continue; // we can not test this condition in a big if above because we need 'final' function to be marked as 'binded' so they will be binded by some of the base classes
+				// we can not test these conditions in a big if above because we need such functions to be marked as 'binded' so they will not be binded by some of the base classes: overload generated for
+				// a base class function will call implementation of the base class and not the one of the most derived class
+				if( m->hasAttr<FinalAttr>() or m->getAccess() == AS_private or is_skipping_requested(*m, Config::get()) //
+					or is_const_overload(
+						   *m) // was ( !is_const_overload(*m) or m->isPure() ) but now we ignoring this case since it is not possible to overload both const and non-const variants in Python anyway
+				)
+					continue;
 
 				if( return_type.find(',') != std::string::npos ) {
 					string return_type_alias = "_binder_ret_" + std::to_string(ret_id);
-- 
2.43.0


From 0d71d8fdb2e8b84e09dd60b05f3345a3d0c6dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:34 +0000
Subject: [PATCH 11/41] fix: do not construct trampolines that inherit pure
 const overloads they can not override

---
 source/class.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index fd5917c..fc7fb5b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -649,9 +649,9 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 	if( C->isAbstract() ) {
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
-			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
 #else
-			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
+			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
 #endif
 		}
 
-- 
2.43.0


From e9ad895d712da9d0732e68e4ef8a67756f7faacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 12/41] fix: honour class directives that skip nested classes

---
 source/class.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index fc7fb5b..fe57928 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1220,6 +1220,18 @@ void ClassBinder::for_public_nested_classes(std::function<void(clang::CXXRecordD
 }
 
 
+// check if user requested skipping of this class by naming it, i.e. without taking rules for its namespace into account
+static bool is_class_skipping_requested(CXXRecordDecl const *C, Config const &config)
+{
+	string const qualified_name_with_template_specialization = class_qualified_name(C);
+
+	if( config.is_class_skipping_requested(qualified_name_with_template_specialization) ) return true;
+	if( config.is_class_binding_requested(qualified_name_with_template_specialization) ) return false;
+
+	return config.is_class_skipping_requested(standard_name(C->getQualifiedNameAsString()));
+}
+
+
 string ClassBinder::bind_nested_classes(Context &context)
 {
 	string c;
@@ -1229,7 +1241,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
-		if( is_bindable(innerC) ) {
+		if( is_bindable(innerC) and !is_class_skipping_requested(innerC, Config::get()) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
 			b.bind(context);
-- 
2.43.0


From b47687826b8b267f5428b8fc3c7200791abac6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:37 +0000
Subject: [PATCH 13/41] fix: bind classes derived from nested classes and order
 classes by bases of their nested classes

---
 source/class.cpp   | 24 +++++++++++++++++++++---
 source/context.cpp | 12 +++++++++++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index fe57928..fddb0b1 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -956,6 +956,22 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 }
 
 
+/// return outermost class enclosing given class, or class itself if it is not nested (nested classes are bound as part of its outermost class)
+static CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	while( auto p = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) C = p;
+	return C;
+}
+
+/// check if class will be bound when requested: i.e. that it and all classes enclosing it are bindable and not marked for skipping
+static bool is_class_available(CXXRecordDecl const *C)
+{
+	for( ; C; C = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) {
+		if( !is_bindable(C) or is_skipping_requested(C, Config::get()) ) return false;
+	}
+	return true;
+}
+
 /// check if any of the base classes is wrappable and if generate a string describing them: , pybind11::base<BaseClass>()
 string ClassBinder::maybe_base_classes(Context &context)
 {
@@ -969,13 +985,14 @@ string ClassBinder::maybe_base_classes(Context &context)
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					auto e = std::find(skip_list.begin(), skip_list.end(), standard_name(R->getQualifiedNameAsString()));
 
-					if( e == skip_list.end() and is_bindable(R) and !is_skipping_requested(R, Config::get()) ) {
+					if( e == skip_list.end() and is_class_available(R) ) {
 						// r = ", pybind11::base<{}>()"_format( class_qualified_name(R) );
 						r += ", {}"_format(class_qualified_name(R));
 
-						binder::request_bindings(b->getType().getCanonicalType(), context);
+						CXXRecordDecl const *outer = outermost_class(R);
+						binder::request_bindings(QualType(outer->getTypeForDecl(), 0).getCanonicalType(), context);
 
-						dependencies_.push_back(R);
+						if( outer != outermost_class(C) ) dependencies_.push_back(outer);
 					}
 				}
 			}
@@ -1248,6 +1265,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			dependencies_.insert(dependencies_.end(), b.dependencies_.begin(), b.dependencies_.end());
 		}
 	});
 
diff --git a/source/context.cpp b/source/context.cpp
index 4cf715b..b436b62 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -284,6 +284,7 @@ void Context::sort_binders()
 
 	bool repeat = true;
 	std::set<string> forward;
+	uint last_position = 0, same_position_count = 0; // detecting circular dependencies, these could appear through nested classes
 
 	while( repeat ) {
 		repeat = false;
@@ -313,7 +314,16 @@ void Context::sort_binders()
 						repeat = true;
 					}
 				}
-				if( repeat ) break;
+				if( repeat ) {
+					uint const position = b - binders.begin();
+					same_position_count = position == last_position ? same_position_count + 1 : 0;
+					last_position = position;
+					if( same_position_count > binders.size() ) {
+						errs() << "ERROR: Circular dependency between classes that includes type: " + class_qualified_name(C) + "!\n";
+						std::exit(1);
+					}
+					break;
+				}
 				add_to_binded(C);
 			}
 		}
-- 
2.43.0


From 0cb861e7d19f91e67193899e9ea2c5f7ca93759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:31 +0000
Subject: [PATCH 14/41] fix: do not use builtin types that have no bindings as
 base classes

---
 source/class.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index fddb0b1..ade2d8b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -983,9 +983,13 @@ string ClassBinder::maybe_base_classes(Context &context)
 		if( b->getAccessSpecifier() == AS_public ) {
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
-					auto e = std::find(skip_list.begin(), skip_list.end(), standard_name(R->getQualifiedNameAsString()));
+					string const name = standard_name(R->getQualifiedNameAsString());
+					auto e = std::find(skip_list.begin(), skip_list.end(), name);
 
-					if( e == skip_list.end() and is_class_available(R) ) {
+					// there are no bindings for builtin types, - unless user told us that he provide them
+					bool const builtin = is_python_builtin(R) and !Config::get().python_builtins.count(name);
+
+					if( e == skip_list.end() and !builtin and is_class_available(R) ) {
 						// r = ", pybind11::base<{}>()"_format( class_qualified_name(R) );
 						r += ", {}"_format(class_qualified_name(R));
 
-- 
2.43.0


From 6cccddb005f80945a6d80edcff38375cdd515cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:59 +0000
Subject: [PATCH 15/41] fix: use namespace of outermost class when deciding if
 nested types are module local

---
 source/class.cpp | 2 +-
 source/enum.cpp  | 2 +-
 source/util.cpp  | 7 +++++++
 source/util.hpp  | 3 +++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index ade2d8b..f3e6e5f 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1334,7 +1334,7 @@ void ClassBinder::bind(Context &context)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(C)))
+	if (Config::get().is_module_local_requested(enclosing_namespace_from_named_decl(C)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	// Add buffer protocol if requested
diff --git a/source/enum.cpp b/source/enum.cpp
index ea72dfa..848579a 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -123,7 +123,7 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(E)))
+	if (Config::get().is_module_local_requested(enclosing_namespace_from_named_decl(E)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	string r = "\tpybind11::enum_<{}>({}, \"{}\"{}, \"{}\"{})\n"_format(qualified_name, module, name, maybe_arithmetic, generate_documentation_string_for_declaration(E), module_local_annotation);
diff --git a/source/util.cpp b/source/util.cpp
index 571e173..b03e90a 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -168,6 +168,13 @@ string namespace_from_named_decl(NamedDecl const *decl)
 	return path;
 }
 
+// find namespace that contains declaration, for class members this is namespace of outermost class
+string enclosing_namespace_from_named_decl(NamedDecl const *decl)
+{
+	while( auto r = dyn_cast<RecordDecl>(decl->getDeclContext()) ) decl = r;
+	return namespace_from_named_decl(decl);
+}
+
 
 /// generate unique string representation of type represented by given declaration
 string typename_from_type_decl(TypeDecl const *decl)
diff --git a/source/util.hpp b/source/util.hpp
index ebb5094..b791093 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -55,6 +55,9 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 /// calculate namespace path from given NamedDecl, like: std, core::pose
 std::string namespace_from_named_decl(clang::NamedDecl const *decl);
 
+/// calculate namespace path that contains given NamedDecl, for class members this is namespace of outermost class
+std::string enclosing_namespace_from_named_decl(clang::NamedDecl const *decl);
+
 
 std::string typename_from_type_decl(clang::TypeDecl const *decl);
 
-- 
2.43.0


From 5693e8230519ef2feb64571795791721771dc079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:05 +0000
Subject: [PATCH 16/41] fix: look through typedefs when checking if field is
 assignable

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index f3e6e5f..b501e66 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -124,7 +124,7 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 
 bool is_field_assignable(FieldDecl const *f)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
+	if( RecordType const *r = dyn_cast<RecordType>(f->getType().getCanonicalType()) ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-- 
2.43.0


From cb1ff05079db56d25e6f55d545942bbd8381fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:05 +0000
Subject: [PATCH 17/41] fix: look through typedefs of pointers and references

---
 source/function.cpp |  2 +-
 source/type.cpp     | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 62b46c5..0a040b8 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -525,7 +525,7 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
-	QualType rt(F->getReturnType());
+	QualType rt(F->getReturnType().getCanonicalType());
 
 	r &= is_bindable(rt);
 
diff --git a/source/type.cpp b/source/type.cpp
index e8401d6..7b686cd 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -45,9 +45,9 @@ namespace binder {
 /// check if user requested binding for the given QualType
 bool is_binding_requested(clang::QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_binding_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_binding_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_binding_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_binding_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_binding_requested(r, config);
 
@@ -58,9 +58,9 @@ bool is_binding_requested(clang::QualType const &qt, Config const &config)
 // check if user requested skipping for the given declaration
 bool is_skipping_requested(QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_skipping_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_skipping_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_skipping_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_skipping_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_skipping_requested(r, config);
 
@@ -71,8 +71,8 @@ bool is_skipping_requested(QualType const &qt, Config const &config)
 bool is_function_type(QualType const &qt)
 {
 	if( dyn_cast<clang::FunctionType>(qt.getTypePtr()) ) return true;
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_function_type(pt->getPointeeType());
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_function_type(rt->getPointeeType());
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_function_type(pt->getPointeeType());
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_function_type(rt->getPointeeType());
 	return false;
 }
 
@@ -379,8 +379,8 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 {
 	// QualType qt = qt.getDesugaredType(context);
 	// outs() << "add_relevant_includes(qt): " << qt.getAsString() << "\n";
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) add_relevant_includes(pt->getPointeeType(), includes, level);
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) add_relevant_includes(rt->getPointeeType(), includes, level);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) add_relevant_includes(pt->getPointeeType(), includes, level);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) add_relevant_includes(rt->getPointeeType(), includes, level);
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) add_relevant_includes(r, includes, level);
 	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, level);
 }
@@ -394,7 +394,7 @@ bool is_bindable(QualType const &qt)
 	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) {
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
 		QualType pqt = pt->getPointeeType();
 
 		if( pqt->isPointerType() ) return false; // refuse to bind 'value**...' types
@@ -410,7 +410,7 @@ bool is_bindable(QualType const &qt)
 		r &= is_bindable(pt->getPointeeType() /*.getCanonicalType()*/);
 	}
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) {
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) {
 		QualType pqt = rt->getPointeeType();
 		// outs() << "#### " << pqt.getAsString() << "\n";
 
@@ -448,9 +448,9 @@ void request_bindings(clang::QualType const &qt, Context &context)
 			if( td->isCompleteDefinition() or dyn_cast<ClassTemplateSpecializationDecl>(td) ) context.request_bindings(typename_from_type_decl(td));
 		}
 
-		if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
 
-		if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
 	}
 }
 
-- 
2.43.0


From 4fb7dc7eb2a9100dcaaa00f66ce0cf4848289ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:11 +0000
Subject: [PATCH 18/41] fix: create output directories without passing their
 names through the shell

---
 source/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index b03e90a..ce38214 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -21,6 +21,7 @@
 #include <clang/AST/Comment.h>
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
+#include <llvm/Support/FileSystem.h>
 
 //#include <experimental/filesystem>
 #include <cctype>
@@ -134,8 +135,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	for( auto &d : dirs ) path += "/" + d;
 
 	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( std::error_code e = llvm::sys::fs::create_directories(path) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + e.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
-- 
2.43.0


From ee9792ab3c9a1cc6a0cecec401bb61660315b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:54 +0000
Subject: [PATCH 19/41] fix: fail when generated files could not be written
 completely

---
 source/context.cpp | 11 +++++++++++
 source/util.cpp    |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index b436b62..02f4a4d 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -80,6 +80,13 @@ string generate_include_directives(IncludeSet const &include_set)
 	return r;
 }
 
+// close file after writing and make sure that everything was written
+void close_file(std::ofstream &f, string const &file_name)
+{
+	f.close();
+	if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + file_name);
+}
+
 const char *main_module_header = R"_(#include <map>
 #include <algorithm>
 #include <functional>
@@ -498,10 +505,14 @@ void Context::generate(Config const &config)
 	else {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		close_file(f, root_module_prefix + ".sources");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		close_file(namespaces_file_handle, root_module_prefix + ".modules");
 	}
+
+	close_file(root_module_file_handle, root_module_full_file_name);
 }
 
 /// generate unique trace line containing `info` to insert into the code
diff --git a/source/util.cpp b/source/util.cpp
index ce38214..e4c8335 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -146,6 +146,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name);
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From 5f7e86e67f97c3c20ace3e670bb06dd867326998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:33 +0000
Subject: [PATCH 20/41] fix: generate unique and valid names for call-back
 structures

---
 source/class.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index b501e66..9ca055c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -22,6 +22,9 @@
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
+#include <cctype>
+#include <map>
+
 
 using namespace llvm;
 using namespace clang;
@@ -604,7 +607,14 @@ string binding_public_data_members(CXXRecordDecl const *C)
 inline string callback_structure_name(CXXRecordDecl const *C)
 {
 	string ns = replace_(namespace_from_named_decl(C), "::", "_");
-	return mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+	string r = mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+	for( auto &c : r ) if( not( std::isalnum(static_cast<unsigned char>(c)) or c == '_' or static_cast<unsigned char>(c) > 127 ) ) c = '_';
+
+	static std::map<string, CXXRecordDecl const *> names; // names in use, different classes could lead to the same name
+	string const base = r;
+	for( uint i = 1; names.emplace(r, C->getCanonicalDecl()).first->second != C->getCanonicalDecl(); ++i ) r = base + '_' + std::to_string(i);
+
+	return r;
 }
 
 
-- 
2.43.0


From 1975a1f14f78160d99d4d314fff57f1137924e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:02 +0000
Subject: [PATCH 21/41] fix: escape type names used inside of string literals

---
 source/class.cpp    |  4 ++--
 source/context.cpp  |  2 +-
 source/function.cpp |  4 ++--
 source/util.cpp     | 14 +++++++++++---
 source/util.hpp     |  3 +++
 5 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 9ca055c..ddb3901 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -960,7 +960,7 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
 	}
 
-	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, python_class_name(C)) + "\n\n";
+	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, escape_string_literal(python_class_name(C))) + "\n\n";
 
 	return c;
 }
@@ -1361,7 +1361,7 @@ void ClassBinder::bind(Context &context)
 				'\n';
 		}
 		c += '\t' +
-			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, maybe_base_classes(context), module_variable_name, python_class_name(C),
+			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, maybe_base_classes(context), module_variable_name, escape_string_literal(python_class_name(C)),
 																		generate_documentation_string_for_declaration(C), extra_annotation) +
 			 '\n';
 	}
diff --git a/source/context.cpp b/source/context.cpp
index 02f4a4d..4f3bf5d 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -518,7 +518,7 @@ void Context::generate(Config const &config)
 /// generate unique trace line containing `info` to insert into the code
 std::string Context::trace_line(std::string const &info)
 {
-	return "\tstd::cout << \"B" + std::to_string(++trace_counter) + "_[" + info + "]\" << std::endl;\n";
+	return "\tstd::cout << \"B" + std::to_string(++trace_counter) + "_[" + escape_string_literal(info) + "]\" << std::endl;\n";
 }
 
 
diff --git a/source/function.cpp b/source/function.cpp
index 0a040b8..461f012 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -382,8 +382,8 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 
 		documentation = generate_documentation_string_for_declaration(F);
 		if( documentation.size() ) documentation += "\\n\\n";
-		documentation += "C++: " + standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
-												 standard_name(F->getReturnType() ) );
+		documentation += "C++: " + escape_string_literal(standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
+												 standard_name(F->getReturnType() ) ));
 	}
 	else {
 		pair<string, string> args = function_arguments_for_lambda(F, args_to_bind);
diff --git a/source/util.cpp b/source/util.cpp
index e4c8335..5673288 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -338,6 +338,16 @@ string get_text(comments::Comment const *C, SourceManager const &SM, SourceLocat
 }
 
 
+// escape special characters so given text could be used inside of C++ string literal
+string escape_string_literal(string text)
+{
+	replace(text, "\\", "\\\\");
+	replace(text, "\"", "\\\"");
+	replace(text, "\n", "\\n");
+	return text;
+}
+
+
 // extract doc string (Doxygen comments) for given declaration and convert it to C++ source code string
 std::string generate_documentation_string_for_declaration(clang::Decl const *decl)
 {
@@ -362,9 +372,7 @@ std::string generate_documentation_string_for_declaration(clang::Decl const *dec
 		// replace(text, "\n\n\n\n", "\n\n");
 		// replace(text, "\n\n\n",   "\n\n");
 
-		replace(text, "\\", "\\\\");
-		replace(text, "\"", "\\\"");
-		replace(text, "\n", "\\n");
+		text = escape_string_literal(text);
 
 		// outs() << text << "\n";
 	}
diff --git a/source/util.hpp b/source/util.hpp
index b791093..bf5ffcc 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -89,6 +89,9 @@ std::string mangle_type_name(std::string const &name, bool mark_template = true)
 // core::scoring::vdwaals::VDWAtom file:core/scoring/vdwaals/VDWTrie.hh line:43
 std::string generate_comment_for_declaration(clang::NamedDecl const *decl);
 
+/// escape special characters so given text could be used inside of C++ string literal
+std::string escape_string_literal(std::string text);
+
 /// extract doc string (Doxygen comments) for given declaration and convert it to C++ code
 std::string generate_documentation_string_for_declaration(clang::Decl const *);
 
-- 
2.43.0


From bacabf1459b45af8c362804e5772579989d3f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 22/41] fix: keep the opening bracket in names of
 instantiations with an empty parameter pack

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index ddb3901..c941756 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -62,7 +62,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.size() > 1 ) templ.back() = '>';
+		else templ += '>'; // no arguments at all: template with empty parameter pack
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From fc53f794fdc95cfe8bdf576ccef562823a4ac018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:28 +0000
Subject: [PATCH 23/41] fix: include headers of insertion operators and
 overridden methods of nested classes

---
 source/class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/class.cpp b/source/class.cpp
index c941756..4d7119b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1280,6 +1280,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			prefix_includes_.insert(prefix_includes_.end(), b.prefix_includes_.begin(), b.prefix_includes_.end());
 			dependencies_.insert(dependencies_.end(), b.dependencies_.begin(), b.dependencies_.end());
 		}
 	});
-- 
2.43.0


From 7aac9499094e3e9dbc44242162e6de3f58b11b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:28 +0000
Subject: [PATCH 24/41] fix: match insertion operators to class templates by
 qualified name and to instantiations by type

Operators for a template of the same name in another namespace were used, and
operators for instantiations with class arguments were never found.
---
 source/context.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 4f3bf5d..ce3581e 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -162,15 +162,31 @@ void Context::add(BinderOP &b)
 	if( TypeDecl const *type_decl = dyn_cast<TypeDecl>(b->named_decl()) ) types[typename_from_type_decl(type_decl)] = b;
 }
 
+// key of insertion operators that are templates: string representation of dependent types does not have namespaces, so name of the template is added
+static string template_insertion_operator_key(string const &op_pointer, TemplateDecl const *t)
+{
+	return op_pointer + ' ' + t->getQualifiedNameAsString();
+}
+
 void Context::add_insertion_operator(clang::FunctionDecl const *F)
 {
-	insertion_operators[function_pointer_type(F)] = F;
+	string key = function_pointer_type(F);
+
+	if( F->getNumParams() == 2 and F->getParamDecl(1)->getType()->isDependentType() ) {
+		if( auto s = F->getParamDecl(1)->getType().getNonReferenceType()->getAs<TemplateSpecializationType>() ) {
+			if( TemplateDecl const *t = s->getTemplateName().getAsTemplateDecl() ) key = template_insertion_operator_key(key, t);
+		}
+	}
+
+	insertion_operators[key] = F;
 }
 
 /// find global insertion operator for given type, return nullptr if not such operator find
 clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDecl const *C)
 {
-	string op_pointer = "std::ostream & (*)(std::ostream &, const " + (C->isStruct() ? string("struct ") : string("class ")) + class_qualified_name(C) + " &)";
+	// Note: type of the argument have to be spelled in the same way as in `function_pointer_type`
+	string op_pointer = "std::ostream & (*)(std::ostream &, " + standard_name(C->getASTContext().getLValueReferenceType(QualType(C->getTypeForDecl(), 0).withConst())) + ")";
+	fix_boolean_types(op_pointer);
 
 	// outs() << "Looking for operator: " << op_pointer << "\n";
 
@@ -188,7 +204,7 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 
 		// outs() << "Looking for operator: " << op_pointer << "\n";
 
-		auto it = insertion_operators.find(op_pointer);
+		auto it = insertion_operators.find(template_insertion_operator_key(op_pointer, t->getSpecializedTemplate()));
 		if( it != insertion_operators.end() ) return it->second;
 	}
 
-- 
2.43.0


From 5bf617acfa6b85a4429f4638fdc3f814c0f2e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 25/41] fix: do not use deleting holder for classes with
 deleted destructor

---
 source/class.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 4d7119b..6608c27 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -958,7 +958,7 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 		maybe_holder_type = ", {}<{}>"_format(holder_type, qualified_name);
 	}
 	else if( CXXDestructorDecl *d = C->getDestructor() ) {
-		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
+		if( d->getAccess() != AS_public or d->isDeleted() ) maybe_holder_type = ", " + qualified_name + '*';
 	}
 
 	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, escape_string_literal(python_class_name(C))) + "\n\n";
@@ -1340,7 +1340,7 @@ void ClassBinder::bind(Context &context)
 		maybe_holder_type = ", {}<{}>"_format(holder_type, qualified_name);
 	}
 	else if( CXXDestructorDecl *d = C->getDestructor() ) {
-		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
+		if( d->getAccess() != AS_public or d->isDeleted() ) maybe_holder_type = ", " + qualified_name + '*';
 	}
 	string maybe_trampoline = callback_structure_constructible ? ", " + binding_qualified_name : "";
 
-- 
2.43.0


From 6dae3db94e197312ce3b1a12543ebbc5900eff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 26/41] fix: do not bind inherited constructors that are not
 public

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6608c27..d43965d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1402,7 +1402,7 @@ void ClassBinder::bind(Context &context)
 					for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
 						if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
 							if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(us->getTargetDecl()) ) {
-								if( is_bindable(t) ) {
+								if( t->getAccess() == AS_public and is_bindable(t) ) { // Note: access to inherited constructor is that of the base class constructor
 									ConstructorBindingInfo CBI = {C, t, trampoline, qualified_name, trampoline_name, context};
 
 									if( t->isCopyConstructor() /*and  not copy_constructor_processed*/ ) {
-- 
2.43.0


From e295fd5852c377152321a13126166d6387d91bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 27/41] fix: bind implicit default constructor only when it is
 not deleted

Data members were not taken into account and bases of bases with a user
provided default constructor were.
---
 source/class.cpp | 59 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index d43965d..c21a968 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,6 +19,7 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -487,29 +488,55 @@ void add_relevant_includes_cached(clang::CXXRecordDecl const *C, IncludeSet &inc
 // 	return true;
 // }
 
-// Check if all bases have public default constructors
-bool base_default_default_constructor_available(CXXRecordDecl const *C)
+static bool implicit_default_constructor_available(CXXRecordDecl const *C);
+
+// Check if default constructor and destructor of given base or data member could be used by implicit constructor
+static bool default_constructor_available(CXXRecordDecl const *C, bool base)
 {
-	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
-		if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
-			if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
+	auto available = [base](CXXMethodDecl const *m) { return !m->isDeleted() and (m->getAccess() == AS_public or (base and m->getAccess() == AS_protected)); };
 
-				if( !R->hasDefaultConstructor() ) return false;
+	if( CXXDestructorDecl const *d = C->getDestructor() ) {
+		if( !available(d) ) return false;
+	}
 
-				for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
-					if( t->isDefaultConstructor() ) {
-						if( t->getAccess() == AS_private /*or  !t->isUserProvided()*/ or t->isDeleted() ) return false;
-					}
-				}
+	for( auto t = C->ctor_begin(); t != C->ctor_end(); ++t ) {
+		if( t->isDefaultConstructor() ) return available(*t);
+	}
 
-				if( !base_default_default_constructor_available(R) ) return false;
+	for( auto d = C->decls_begin(); d != C->decls_end(); ++d ) {
+		if( FunctionTemplateDecl *ft = dyn_cast<FunctionTemplateDecl>(*d) ) {
+			if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(ft->getTemplatedDecl()) ) {
+				if( t->getMinRequiredArguments() == 0 and available(t) ) return true;
 			}
 		}
 	}
 
-	return true;
+	return C->needsImplicitDefaultConstructor() and implicit_default_constructor_available(C);
 }
 
+// Check if implicit default constructor is not deleted, i.e. that all bases and data members could be default constructed
+static bool implicit_default_constructor_available(CXXRecordDecl const *C)
+{
+	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+		CXXRecordDecl const *R = b->getType()->getAsCXXRecordDecl();
+		if( R and !default_constructor_available(R, /*base=*/true) ) return false;
+	}
+
+	if( C->isUnion() and C->hasInClassInitializer() ) return true;
+
+	for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
+		if( f->hasInClassInitializer() or (f->isBitField() and !f->getDeclName()) ) continue;
+
+		QualType const t = C->getASTContext().getBaseElementType(f->getType());
+		CXXRecordDecl const *R = t->getAsCXXRecordDecl();
+
+		if( t->isReferenceType() ) return false;
+		if( t.isConstQualified() and !(R and R->allowConstDefaultInit()) ) return false;
+		if( R and (C->isUnion() ? !R->hasTrivialDefaultConstructor() : !default_constructor_available(R, /*base=*/false)) ) return false;
+	}
+
+	return true;
+}
 
 
 /// Generate string id that uniquly identify C++ binding object. For functions this is function prototype and for classes forward declaration.
@@ -1421,10 +1448,10 @@ void ClassBinder::bind(Context &context)
 			}
 		}
 
-		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} base_default_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
-		// C->needsImplicitDefaultConstructor(), base_default_default_constructor_available(C));
+		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} implicit_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
+		// C->needsImplicitDefaultConstructor(), implicit_default_constructor_available(C));
 
-		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C)
+		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and implicit_default_constructor_available(C)
 			// ( C->ctor_begin() == C->ctor_end() and  is_default_default_constructor_available(C)  and  !default_constructor_processed)
 			// or (C->hasDefaultConstructor()  and  !default_constructor_processed )
 
-- 
2.43.0


From 96b4dcd5157e7095640a49f69b25ba23ef397e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:36 +0000
Subject: [PATCH 28/41] fix: do not bind bit-fields

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index c21a968..7050b08 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -150,6 +150,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // there are no pointers to bit-fields
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From bf38acd00b97a2e2e09df50132d136136e8d3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:36 +0000
Subject: [PATCH 29/41] fix: do not generate trampolines for classes with
 private or deleted destructor

---
 source/class.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 7050b08..6536516 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -666,6 +666,11 @@ bool is_callback_structure_needed(CXXRecordDecl const *C)
 
 	if( C->hasAttr<FinalAttr>() ) return false;
 
+	// class could not be derived-from when its destructor is not accessible
+	if( CXXDestructorDecl const *d = C->getDestructor() ) {
+		if( d->getAccess() == AS_private or d->isDeleted() ) return false;
+	}
+
 	for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 		if( m->getAccess() != AS_private and is_bindable(*m) and m->isVirtual() and !isa<CXXDestructorDecl>(*m) ) return true;
 	}
-- 
2.43.0


From fd49a8cb40c3abb5ee0fd9eb9f71c59c55392d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:36 +0000
Subject: [PATCH 30/41] fix: do not bind deduction guides

---
 source/function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index 461f012..76cb030 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -523,6 +523,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 		if( !isa<CXXMethodDecl>(F) or (cpp_python_operator(*F).size() == 0) ) return false;
 	}
 
+#if( LLVM_VERSION_MAJOR > 4 )
+	if( isa<CXXDeductionGuideDecl>(F) ) return false; // this is not a function
+#endif
+
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
 	QualType rt(F->getReturnType().getCanonicalType());
-- 
2.43.0


From 4d0455f0c2e4c03e9074ede73be3fa08cdb47934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:54 +0000
Subject: [PATCH 31/41] fix: do not bind functions that are only declared as
 friends

---
 source/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index 76cb030..504d97a 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -515,6 +515,8 @@ bool is_bindable_raw(FunctionDecl const *F)
 		else return false;
 	}
 
+	if( F->getFriendObjectKind() == Decl::FOK_Undeclared ) return false; // function could only be found through its arguments so there is no way to refer to it by its name
+
 	// bool r = true;
 	bool r = !F->isDeleted(); //  and  !F->isVariadic(); disabled, instead we force bindings with lambda for variadic
 
-- 
2.43.0


From 65bf59dbc446a275b7aa105eb9fe4ba33e2ab423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:54 +0000
Subject: [PATCH 32/41] fix: do not bind functions that use pointers to members
 or return references to functions

---
 source/function.cpp | 2 +-
 source/type.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 504d97a..9b30c2f 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -533,7 +533,7 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	QualType rt(F->getReturnType().getCanonicalType());
 
-	r &= is_bindable(rt);
+	r &= is_bindable(rt) and !is_function_type(rt);
 
 	for( auto p = F->param_begin(); p != F->param_end(); ++p ) r &= is_bindable((*p)->getOriginalType().getCanonicalType());
 	// outs() << "is_bindable: " << F->getQualifiedNameAsString() << " " << r << "\n";
diff --git a/source/type.cpp b/source/type.cpp
index 7b686cd..61d66c0 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -391,7 +391,7 @@ bool is_bindable(QualType const &qt)
 {
 	bool r = true;
 
-	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
+	r &= !qt->isFunctionPointerType() and !qt->isMemberPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
 	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) {
-- 
2.43.0


From f89eaa771e32777c9262e8bd0e3c39391c89ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:54 +0000
Subject: [PATCH 33/41] fix: do not override variadic virtual functions in
 trampolines

---
 source/class.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6536516..011fe0e 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -694,9 +694,9 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 	if( C->isAbstract() ) {
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
-			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
+			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or m->isVariadic() or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
 #else
-			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
+			if( m->isPure() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or m->isVariadic() or is_skipping_requested(*m, Config::get()) or is_const_overload(*m)) ) return false;
 #endif
 		}
 
@@ -790,7 +790,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				// m->hasAttr<OverrideAttr>, attribute list is automatically generated, see <release>/tools/clang/include/clang/Basic/AttrList.inc for attribute list
 				// we can not test these conditions in a big if above because we need such functions to be marked as 'binded' so they will not be binded by some of the base classes: overload generated for
 				// a base class function will call implementation of the base class and not the one of the most derived class
-				if( m->hasAttr<FinalAttr>() or m->getAccess() == AS_private or is_skipping_requested(*m, Config::get()) //
+				if( m->hasAttr<FinalAttr>() or m->getAccess() == AS_private or m->isVariadic() or is_skipping_requested(*m, Config::get()) //
 					or is_const_overload(
 						   *m) // was ( !is_const_overload(*m) or m->isPure() ) but now we ignoring this case since it is not possible to overload both const and non-const variants in Python anyway
 				)
-- 
2.43.0


From 85745551b99fca1389eee6806f038be745eb2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:15 +0000
Subject: [PATCH 34/41] fix: take reference and volatile qualifiers of methods
 into account

---
 source/class.cpp    | 6 ++++--
 source/function.cpp | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 011fe0e..daf9a1d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -779,7 +779,9 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 			tuple<string, string, string> args = function_arguments_for_py_overload(*m);
 
-			string key = /*return_type + ' ' +*/ m->getNameAsString() + '(' + std::get<0>(args) + (m->isConst() ? ") const" : ")");
+			string const qualifiers = string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : "");
+
+			string key = /*return_type + ' ' +*/ m->getNameAsString() + '(' + std::get<0>(args) + ")" + qualifiers;
 
 			// outs() << "Class: " << C->getNameAsString() << "Key: " << key << "\n";
 			// c += "// Key: " + key + "\n";
@@ -821,7 +823,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 					}
 				}
 
-				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
+				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), qualifiers, exception_specification);
 
 				string member_function_name = namespace_from_named_decl(C);
 				if ( member_function_name.length() > 0 ) member_function_name += "::";
diff --git a/source/function.cpp b/source/function.cpp
index 9b30c2f..4abc071 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -252,6 +252,7 @@ string function_pointer_type(FunctionDecl const *F)
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
 		prefix = m->isStatic() ? "" : class_qualified_name(cast<CXXRecordDecl>(F->getParent())) + "::";
 		maybe_const = m->isConst() ? " const" : "";
+		if( m->getRefQualifier() == RQ_LValue ) maybe_const += " &";
 	}
 
 	//r += standard_name(F->getReturnType().getCanonicalType().getAsString());
@@ -517,6 +518,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	if( F->getFriendObjectKind() == Decl::FOK_Undeclared ) return false; // function could only be found through its arguments so there is no way to refer to it by its name
 
+	if( auto m = dyn_cast<CXXMethodDecl>(F) ) { // methods that could not be called for objects that Python holds
+		if( m->getRefQualifier() == RQ_RValue or m->isVolatile() ) return false;
+	}
+
 	// bool r = true;
 	bool r = !F->isDeleted(); //  and  !F->isVariadic(); disabled, instead we force bindings with lambda for variadic
 
-- 
2.43.0


From 0eb20daad75e665ddf71fd061019d79bbc611113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:18 +0000
Subject: [PATCH 35/41] fix: call the bound instantiation when function
 templates are called with fewer arguments

---
 source/function.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 4abc071..8760eb3 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -409,10 +409,10 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 			// string object = class_qualified_name( m->getParent() ) + (m->isConst() ? " const" : "") + " &o" + ( args_to_bind ? ", " : "" );
 			string object = class_qualified_name(parent ? parent : m->getParent()) + (m->isConst() ? " const" : "") + " &o" +
 							(args_to_bind ? ", " : ""); // forcing object type to be of parent class so member function with lifted access could be used
-			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), args.second);
+			function = "[]({}{}) -> {} {{ return o.{}{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), template_specialization(F), args.second);
 		}
 		else {
-			function = "[]({}) -> {} {{ return {}({}); }}"_format(args.first, return_type, function_qualified_name, args.second);
+			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, function_qualified_name, template_specialization(F), args.second);
 		}
 	}
 
@@ -470,8 +470,8 @@ string bind_function(string const &module, FunctionDecl const *F, Context &conte
 		}
 	}
 
-	for( ; args_to_bind < num_params; ++args_to_bind ) {
-		if( F->getParamDecl(args_to_bind)->hasDefaultArg() ) break;
+	for( int i = args_to_bind; i < num_params; ++i ) {
+		if( !F->getParamDecl(i)->hasDefaultArg() ) args_to_bind = i + 1; // parameters from expanded packs have no default values
 	}
 
 	for( ; args_to_bind <= num_params; ++args_to_bind ) code += module + bind_function(F, args_to_bind, args_to_bind == num_params, context, parent, always_use_lambda or F->isVariadic()) + '\n';
-- 
2.43.0


From c961c724ee36963ea6a2001f8382e763835d73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:30 +0000
Subject: [PATCH 36/41] fix: take types in template parameter packs into
 account for includes and skipping

---
 source/class.cpp    | 10 ++++++++++
 source/function.cpp |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index daf9a1d..2c427c6 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -104,6 +104,11 @@ vector<QualType> get_type_dependencies(CXXRecordDecl const *C /*, bool include_m
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
 		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { r.push_back(t->getTemplateArgs()[i].getAsType() /*.getDesugaredType(C->getASTContext())*/); }
+			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Pack ) {
+				for( auto const &a : t->getTemplateArgs()[i].pack_elements() ) {
+					if( a.getKind() == TemplateArgument::Type ) r.push_back(a.getAsType());
+				}
+			}
 		}
 	}
 
@@ -385,6 +390,11 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Template ) {
 				add_relevant_include_for_decl(t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes);
 			}
+			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Pack ) {
+				for( auto const &a : t->getTemplateArgs()[i].pack_elements() ) {
+					if( a.getKind() == TemplateArgument::Type ) add_relevant_includes(a.getAsType().getDesugaredType(C->getASTContext()), includes, level + 1);
+				}
+			}
 
 			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Declaration ) {
 				ValueDecl *v = t->getTemplateArgs()[i].getAsDecl();
diff --git a/source/function.cpp b/source/function.cpp
index 8760eb3..8fe5d49 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -305,6 +305,11 @@ vector<QualType> get_type_dependencies(FunctionDecl const *F)
 			for( uint i = 0; i < tal->size(); ++i ) {
 				TemplateArgument const &ta(tal->get(i));
 				if( ta.getKind() == TemplateArgument::Type ) r.push_back(ta.getAsType());
+				if( ta.getKind() == TemplateArgument::Pack ) {
+					for( auto const &a : ta.pack_elements() ) {
+						if( a.getKind() == TemplateArgument::Type ) r.push_back(a.getAsType());
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From f9c709906b59511c67be2a6bf4bc441c37df4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:39 +0000
Subject: [PATCH 37/41] fix: pass module of enclosing namespace to custom
 binders of nested classes

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2c427c6..6f985d7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1068,7 +1068,7 @@ void ClassBinder::bind_with(string const &binder, Context &context)
 {
 	string c = '\t' + generate_comment_for_declaration(C);
 
-	string const module_variable_name = context.module_variable_name(namespace_from_named_decl(C));
+	string const module_variable_name = context.module_variable_name(enclosing_namespace_from_named_decl(C));
 
 	c += '\t' + binder + standard_name(template_specialization(C)) + '(' + module_variable_name;
 
-- 
2.43.0


From ba7886c4bc0e3799434caefc35608bb3f7289ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:39 +0000
Subject: [PATCH 38/41] fix: pass own type to custom trampoline functions of
 inherited methods

---
 source/class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6f985d7..8214cbc 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -761,7 +761,7 @@ if (overload) {{
 
 
 // generate call-back overloads for all public virtual functions in C including it bases
-string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
+string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, string const &structure_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
 	string c;
@@ -850,7 +850,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				}
 				else {
 					string input_args = std::get<1>(args);
-					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_structure_name(C), class_name, m->getNameAsString());
+					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), structure_name, class_name, m->getNameAsString());
 					if ( input_args.length() > 0 )
 						c += ", {}"_format(std::get<1>(args));
 					c += ");\n";
@@ -880,7 +880,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, structure_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
 				}
 			}
 		}
@@ -902,7 +902,7 @@ void ClassBinder::generate_prefix_code()
 
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), callback_structure_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From 9e8e165fa7f2b7d16a24e0ef81c966a0a6ebdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:49 +0000
Subject: [PATCH 39/41] fix: use full names for template arguments of explicit
 instantiations

---
 source/type.cpp |  5 ++++-
 source/util.cpp | 12 +++++++++++-
 source/util.hpp |  3 +++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index 61d66c0..3b57acd 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -484,7 +484,10 @@ std::string standard_name(clang::QualType const &qt)
 
 	static std::set<string> standard_names_to_ignore {"std::size_t", }; // "std::array::size_type",
 	if( standard_names_to_ignore.count(r) ) return r;
-	else return standard_name(qt.getCanonicalType().getAsString());
+
+	PrintingPolicy policy((LangOptions()));
+	print_canonical_types(policy);
+	return standard_name(qt.getCanonicalType().getAsString(policy));
 }
 
 
diff --git a/source/util.cpp b/source/util.cpp
index 5673288..d7e023a 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -181,7 +181,7 @@ string enclosing_namespace_from_named_decl(NamedDecl const *decl)
 /// generate unique string representation of type represented by given declaration
 string typename_from_type_decl(TypeDecl const *decl)
 {
-	return standard_name(decl->getTypeForDecl()->getCanonicalTypeInternal() /*getCanonicalType()*/.getAsString());
+	return standard_name(decl->getTypeForDecl()->getCanonicalTypeInternal() /*getCanonicalType()*/);
 }
 
 
@@ -234,12 +234,22 @@ string expresion_to_string(clang::Expr *e)
 }
 
 
+/// Make policy print arguments of explicit instantiations by their full names and not as they were written
+void print_canonical_types(clang::PrintingPolicy &policy)
+{
+#if( LLVM_VERSION_MAJOR >= 10 )
+	policy.PrintCanonicalTypes = true;
+#endif
+}
+
+
 // Generate string representation of given TemplateArgument
 string template_argument_to_string(clang::TemplateArgument const &t)
 {
 	clang::LangOptions lang_opts;
 	lang_opts.CPlusPlus = true;
 	clang::PrintingPolicy Policy(lang_opts);
+	print_canonical_types(Policy);
 
 	std::string _;
 	llvm::raw_string_ostream s(_);
diff --git a/source/util.hpp b/source/util.hpp
index bf5ffcc..9fcbf98 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -41,6 +41,9 @@ bool begins_with(std::string const &source, std::string const &prefix);
 /// check if string ends with given prefix
 bool ends_with(std::string const &source, std::string const &prefix);
 
+/// Make policy print arguments of explicit instantiations by their full names and not as they were written
+void print_canonical_types(clang::PrintingPolicy &policy);
+
 /// indent given code
 std::string indent(std::string const &code, std::string const &indentation);
 
-- 
2.43.0


From 09e898ce9597501907dd05ff6647f6562f91cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 40/41] fix: bind copy constructors that have additional
 arguments with defaults

---
 source/class.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 8214cbc..7eaafee 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1249,6 +1249,8 @@ string bind_constructor(ConstructorBindingInfo const &CBI)
 		if( CBI.T->getParamDecl(args_to_bind)->hasDefaultArg() ) break;
 	}
 
+	if( CBI.T->isCopyConstructor() ) args_to_bind = 2; // version with single argument is generated by bind_copy_constructor
+
 	for( ; args_to_bind <= CBI.T->getNumParams(); ++args_to_bind ) code += bind_constructor(CBI, args_to_bind, args_to_bind == CBI.T->getNumParams()) + '\n';
 
 	return code;
@@ -1432,6 +1434,7 @@ void ClassBinder::bind(Context &context)
 					//constructors += "// CC " + standard_name(t->getQualifiedNameAsString()) + "\n";
 					//constructors += "// CC " + function_qualified_name(*t, true) + "\n";
 					constructors += bind_copy_constructor(CBI);
+					if( t->getNumParams() > 1 ) constructors += bind_constructor(CBI);
 					//constructors += "// CC \n";
 					// copy_constructor_processed = true;
 				}
-- 
2.43.0


From 4264423ffb71ffd14cc30d580bded647198cf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 41/41] fix: data members of types whose assignment is deleted
 are read only

---
 source/class.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 7eaafee..f5cb9f1 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -132,20 +132,44 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 }
 
 
-bool is_field_assignable(FieldDecl const *f)
+// Check if const objects of given class could be assigned to objects of this class
+static bool is_copy_assignable(CXXRecordDecl const *C, bool base = false)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType().getCanonicalType()) ) {
-		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
-			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-				if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
-			}
+	bool declared = false, accept_const = false;
+	for( auto m = C->method_begin(); m != C->method_end(); ++m ) { // checking if this type has deleted operator=
+		if( m->isCopyAssignmentOperator() ) {
+			if( m->isDeleted() or !(m->getAccess() == AS_public or (base and m->getAccess() == AS_protected)) ) return false;
+			declared = true;
+			QualType const t = m->getParamDecl(0)->getType();
+			accept_const |= !t->isReferenceType() or t->getPointeeType().isConstQualified();
 		}
 	}
+	if( declared ) return accept_const;
+
+	// implicit operator=, which is not declared by Clang until it is used: it is deleted if some of the bases or data members could not be assigned
+	if( C->hasUserDeclaredMoveConstructor() or C->hasUserDeclaredMoveAssignment() ) return false;
+
+	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+		CXXRecordDecl const *R = b->getType()->getAsCXXRecordDecl();
+		if( R and !is_copy_assignable(R, /*base=*/true) ) return false;
+	}
+
+	for( auto f = C->field_begin(); f != C->field_end(); ++f ) {
+		QualType const t = C->getASTContext().getBaseElementType(f->getType());
+		if( t->isReferenceType() or t.isConstQualified() ) return false;
+		CXXRecordDecl const *R = t->getAsCXXRecordDecl();
+		if( R and !is_copy_assignable(R) ) return false;
+	}
 
 	return true;
 }
 
+bool is_field_assignable(FieldDecl const *f)
+{
+	CXXRecordDecl const *C = f->getType()->getAsCXXRecordDecl();
+	return !C or is_copy_assignable(C);
+}
+
 /// check if generator can create binding
 bool is_bindable(FieldDecl *f)
 {
-- 
2.43.0

