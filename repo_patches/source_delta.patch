From a74ca158b109978cffe05fc32e8354714750a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:21 +0000
Subject: [PATCH 01/63] fix: namespace directives apply to the named namespace
 and those nested in it, not to every namespace whose name begins with the
 same characters

---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..4d4198a 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+/// check if `namespace_` is `parent` itself or is nested in it
+static bool is_same_or_nested_namespace(string const &namespace_, string const &parent)
+{
+	return parent.empty() or namespace_ == parent or begins_with(namespace_, parent + "::");
+}
+
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_same_or_nested_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_same_or_nested_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_same_or_nested_namespace(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_same_or_nested_namespace(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From 723f6de8785eb7b4f37d56e9ba1356ae8290ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:39 +0000
Subject: [PATCH 02/63] fix: give every generated source file and binding
 function its own name when names derived from different headers coincide

---
 source/context.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..6041a95 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -345,19 +345,23 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string np, file_name, function_name;
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		// different prefixes could lead to the same name (for example: `a_1.hpp` and second file for `a.hpp`, or `a/b.hpp` and `a_b.hpp`) so we have to make sure that name is not taken yet
+		do {
+			if( O_flat ) {
+				np = config.root_module + "_";
+				file_name = np + std::to_string(file_names[np]);
+			}
+			else {
+				np = file_name_prefix_for_binder(binders[i]);
+				file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			}
+			++file_names[np];
+
+			function_name = "bind_" + replace_(file_name, "/", "_");
+		} while( (file_name == config.root_module and not O_single_file) or std::find(binding_function_names.begin(), binding_function_names.end(), function_name) != binding_function_names.end() );
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From b5d178af7e7a244be80b53a8f99916a87dd40e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:01 +0000
Subject: [PATCH 03/63] fix: always put at least one binding into a generated
 file, so that --max-file-size=0 (or a limit below the namespace prologue)
 terminates

---
 source/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 6041a95..9a01a81 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -396,7 +396,7 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		for( uint first = i; (i == first or code.size() < config.maximum_file_length) and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 7d091462e442e7c03a0e709ed84b7c142a81a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:28 +0000
Subject: [PATCH 04/63] fix: report output files that could not be written, and
 create output directories without going through a shell

---
 source/context.cpp | 7 +++++++
 source/util.cpp    | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 9a01a81..78dfefc 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -490,10 +490,17 @@ void Context::generate(Config const &config)
 	else {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".sources...");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		namespaces_file_handle.close();
+		if( namespaces_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".modules...");
 	}
+
+	root_module_file_handle.close();
+	if( root_module_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_full_file_name + "...");
 }
 
 /// generate unique trace line containing `info` to insert into the code
diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..0f12e21 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,6 +22,8 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
+#include <llvm/Support/FileSystem.h>
+
 //#include <experimental/filesystem>
 #include <cctype>
 #include <cstdlib>
@@ -134,8 +136,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	for( auto &d : dirs ) path += "/" + d;
 
 	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( auto error = llvm::sys::fs::create_directories(path) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + error.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
@@ -146,6 +147,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name + "...");
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From 252e569147774733ac95a9e3321d5aa50321f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 05/63] fix: do not rewrite _Bool inside of identifiers

---
 source/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/util.cpp b/source/util.cpp
index 0f12e21..56d52b0 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -201,9 +201,10 @@ string last_namespace(string const &ns)
 void fix_boolean_types(string &type)
 {
 	static string const B("_Bool");
+	auto is_identifier_char = [](unsigned char c) { return std::isalnum(c) or c == '_'; };
 	size_t i = 0;
 	while( (i = type.find(B, i)) != string::npos ) {
-		if( (i == 0 or (!std::isalpha(type[i - 1]) and !std::isdigit(type[i - 1]))) and (i + B.size() == type.size() or (!std::isalpha(type[i + B.size()]) and !std::isdigit(type[i + B.size()]))) )
+		if( (i == 0 or !is_identifier_char(type[i - 1])) and (i + B.size() == type.size() or !is_identifier_char(type[i + B.size()])) )
 			type.replace(i, B.size(), "bool");
 		++i;
 	}
-- 
2.43.0


From 8727f7d797ce931506fb6ad52851529d8ae69c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 06/63] fix: qualify nullptr_t only where it is printed
 unqualified, not inside of other names

---
 source/type.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index ab52d34..e903497 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -508,8 +508,6 @@ string standard_name_raw(string const &type)
 
 		make_pair("class std::__thread_id", "std::thread::id"), make_pair("std::__thread_id", "std::thread::id"),
 
-		make_pair("nullptr_t", "std::nullptr_t"),
-
 		// make_pair("const class ", "const "),
 		// make_pair("const struct ", "const "),
 	};
@@ -517,6 +515,17 @@ string standard_name_raw(string const &type)
 	string r(type);
 	for( auto &p : name_map ) replace(r, p.first, p.second);
 
+	// older Clang print std::nullptr_t without namespace, take care not to touch already qualified name and other identifiers
+	static string const nullptr_type{"nullptr_t"};
+	auto is_identifier_char = [](unsigned char c) { return std::isalnum(c) or c == '_'; };
+	for( size_t i = 0; (i = r.find(nullptr_type, i)) != string::npos; i += nullptr_type.size() ) {
+		size_t end = i + nullptr_type.size();
+		if( (i == 0 or (!is_identifier_char(r[i - 1]) and r[i - 1] != ':')) and (end == r.size() or !is_identifier_char(r[end])) ) {
+			r.insert(i, "std::");
+			i += 5 /*len("std::")*/;
+		}
+	}
+
 	// static vector< string > const prefixes = {
 	// 	"enum ",
 	// 	"class ",
-- 
2.43.0


From a67befd1d7bcace7b8bb2e6210511144ee2814d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 07/63] fix: honor '-class' directives for nested classes

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..69f0e51 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1220,6 +1220,8 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
+		// honor explicit requests to skip nested class, namespace related requests were already taken into account when outer class was bound
+		if( Config::get().is_class_skipping_requested(class_qualified_name(innerC)) or Config::get().is_class_skipping_requested(standard_name(innerC->getQualifiedNameAsString())) ) return;
 		if( is_bindable(innerC) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
-- 
2.43.0


From 008a9cdca64a569c93db4c061c982a960040cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 08/63] fix: take nested classes into account when ordering
 class bindings, so that every base class is registered before the classes
 derived from it

---
 source/class.cpp   | 18 +++++++++++++++++-
 source/class.hpp   |  4 ++++
 source/context.cpp | 18 ++++++++++++++++--
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 69f0e51..a69872a 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -106,6 +106,14 @@ vector<QualType> get_type_dependencies(CXXRecordDecl const *C /*, bool include_m
 }
 
 
+// return outermost class that enclose given class (or class itself if it is not nested). Nested classes always bound together with their outermost class.
+CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	while( C->isCXXClassMember() ) C = cast<CXXRecordDecl>(C->getDeclContext());
+	return C;
+}
+
+
 // Return true if class have direct or inderect std::enable_shared_from_this as base class
 bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 {
@@ -960,11 +968,18 @@ string ClassBinder::maybe_base_classes(Context &context)
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					auto e = std::find(skip_list.begin(), skip_list.end(), standard_name(R->getQualifiedNameAsString()));
 
-					if( e == skip_list.end() and is_bindable(R) and !is_skipping_requested(R, Config::get()) ) {
+					bool bindable = is_bindable(R) and !is_skipping_requested(R, Config::get());
+					for( CXXRecordDecl const *E = R; bindable and E->isCXXClassMember(); ) { // nested class is bound only if all its enclosing classes are
+						E = cast<CXXRecordDecl>(E->getDeclContext());
+						bindable = is_bindable(E) and !is_skipping_requested(E, Config::get());
+					}
+
+					if( e == skip_list.end() and bindable ) {
 						// r = ", pybind11::base<{}>()"_format( class_qualified_name(R) );
 						r += ", {}"_format(class_qualified_name(R));
 
 						binder::request_bindings(b->getType().getCanonicalType(), context);
+						if( R->isCXXClassMember() ) context.request_bindings(typename_from_type_decl(outermost_class(R)));
 
 						dependencies_.push_back(R);
 					}
@@ -1229,6 +1244,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			dependencies_.insert(dependencies_.end(), b.dependencies_.begin(), b.dependencies_.end());
 		}
 	});
 
diff --git a/source/class.hpp b/source/class.hpp
index dfbbbb6..077a290 100644
--- a/source/class.hpp
+++ b/source/class.hpp
@@ -46,6 +46,10 @@ std::string class_qualified_name(clang::CXXRecordDecl const *C);
 std::vector<clang::QualType> get_type_dependencies(clang::CXXRecordDecl const *C /*, bool include_members=false*/);
 
 
+/// return outermost class that enclose given class (or class itself if it is not nested). Nested classes always bound together with their outermost class.
+clang::CXXRecordDecl const *outermost_class(clang::CXXRecordDecl const *C);
+
+
 // generate vector<NamedDecl const *> with all declarations related to class
 std::vector<clang::NamedDecl const *> get_decl_dependencies(clang::CXXRecordDecl const *C);
 
diff --git a/source/context.cpp b/source/context.cpp
index 78dfefc..5438519 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -285,14 +285,18 @@ void Context::sort_binders()
 	bool repeat = true;
 	std::set<string> forward;
 
+	size_t last_position = 0;
+	std::set<CXXRecordDecl const *> moved; // classes that was already moved to last_position
+
 	while( repeat ) {
 		repeat = false;
 		binded = forward;
 		for( auto b = binders.begin(); b != binders.end(); ++b ) {
 			if( CXXRecordDecl const *C = dyn_cast<CXXRecordDecl const >((*b)->named_decl()) ) { // right not only query dependency if we dealing with class
 				std::vector<CXXRecordDecl const *> const dependencies = (*b)->dependencies();
-				for( auto &c : dependencies ) {
-					if( !is_forward_needed(c) ) continue;
+				for( auto &d : dependencies ) {
+					CXXRecordDecl const *c = outermost_class(d); // nested classes are bound together with their outermost class
+					if( c == C or !is_forward_needed(c) ) continue;
 					// outs() << "Pushing forward binding for " << class_qualified_name(c) << "...\n";
 					auto e = find_if(b, binders.end(), [&c](BinderOP const &p) -> bool { return dyn_cast<CXXRecordDecl const >(p->named_decl()) == c; });
 					if( e == binders.end() ) {
@@ -309,6 +313,16 @@ void Context::sort_binders()
 						// add_to_binded(c);
 					}
 					else {
+						size_t position = std::distance(binders.begin(), b);
+						if( position != last_position ) {
+							last_position = position;
+							moved.clear();
+						}
+						if( !moved.insert(c).second ) {
+							errs() << "ERROR: Could not determine order of bindings: class " + class_qualified_name(c) + " indirectly depends on itself through its nested classes!\n";
+							std::exit(1);
+						}
+
 						rotate(b, e, binders.end());
 						repeat = true;
 					}
-- 
2.43.0


From e6d9926b51a85f3bf94c5f830bacfe6d449c3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:52 +0000
Subject: [PATCH 09/63] fix: do not bind enums that reside in anonymous
 namespaces

---
 source/enum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/enum.cpp b/source/enum.cpp
index b538d73..9398b67 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -49,6 +49,8 @@ bool is_bindable(EnumDecl const *E)
 
 	if( E->isCXXInstanceMember() ) return false;
 
+	if( E->isInAnonymousNamespace() ) return false; // same as for classes and functions: type could not be named in generated code
+
 	string name = E->getNameAsString(); // getQualifiedNameAsString(); //
 	// if( name.rfind(')') != string::npos ) return false; // checking that this is not an "(anonymous)" enum
 	if( name.empty() or name.rfind(')') != string::npos ) return false; // checking that this is not an "(anonymous)" enum
-- 
2.43.0


From 8ef5cf951981a00994ec82724bd758f4ce254a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 10/63] fix: bind members of explicitly requested classes even
 if namespace of such class is requested to be skipped

---
 source/class.cpp    | 12 +++++++++++-
 source/class.hpp    |  4 ++++
 source/enum.cpp     |  3 ++-
 source/function.cpp |  2 +-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index a69872a..e875258 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -114,6 +114,16 @@ CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
 }
 
 
+// check if given declaration is a member of a class for which user explicitly requested binding, such members are not subject to skipping requests for namespace in which class resides
+bool is_member_of_requested_class(NamedDecl const *D, Config const &config)
+{
+	for( auto C = dyn_cast<CXXRecordDecl>(D->getDeclContext()); C; C = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) {
+		if( config.is_class_binding_requested(class_qualified_name(C)) or config.is_class_binding_requested(standard_name(C->getQualifiedNameAsString())) ) return true;
+	}
+	return false;
+}
+
+
 // Return true if class have direct or inderect std::enable_shared_from_this as base class
 bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 {
@@ -364,7 +374,7 @@ bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 	if( config.is_class_skipping_requested(qualified_name) ) return true;
 	if( config.is_class_binding_requested(qualified_name) ) return false;
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(C));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(C)) and not is_member_of_requested_class(C, config);
 
 	for( auto &t : get_type_dependencies(C) ) skip |= is_skipping_requested(t, config);
 
diff --git a/source/class.hpp b/source/class.hpp
index 077a290..dd7d2ac 100644
--- a/source/class.hpp
+++ b/source/class.hpp
@@ -50,6 +50,10 @@ std::vector<clang::QualType> get_type_dependencies(clang::CXXRecordDecl const *C
 clang::CXXRecordDecl const *outermost_class(clang::CXXRecordDecl const *C);
 
 
+/// check if given declaration is a member of a class for which user explicitly requested binding, such members are not subject to skipping requests for namespace in which class resides
+bool is_member_of_requested_class(clang::NamedDecl const *D, Config const &config);
+
+
 // generate vector<NamedDecl const *> with all declarations related to class
 std::vector<clang::NamedDecl const *> get_decl_dependencies(clang::CXXRecordDecl const *C);
 
diff --git a/source/enum.cpp b/source/enum.cpp
index 9398b67..32eb8f1 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -13,6 +13,7 @@
 
 #include <enum.hpp>
 
+#include <class.hpp>
 #include <type.hpp>
 #include <util.hpp>
 
@@ -76,7 +77,7 @@ bool is_skipping_requested(clang::EnumDecl const *E, Config const &config)
 	if( config.is_enum_skipping_requested(qualified_name) ) return true;
 	if( config.is_enum_binding_requested(qualified_name) ) return false;
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(E));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(E)) and not is_member_of_requested_class(E, config);
 
 	//for( auto &t : get_type_dependencies(E) ) skip |= is_skipping_requested(t, config);
 
diff --git a/source/function.cpp b/source/function.cpp
index 62b46c5..7b865a5 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -337,7 +337,7 @@ bool is_skipping_requested(FunctionDecl const *F, Config const &config)
 	if( config.is_function_skipping_requested(qualified_name) ) return true; // qualified function name was requested for skipping
 	if( config.is_function_binding_requested(qualified_name) ) return false; // qualified function name was requested for binding
 
-	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(F));
+	bool skip = config.is_namespace_skipping_requested(namespace_from_named_decl(F)) and not is_member_of_requested_class(F, config);
 
 	// moved to config -> qualified_name.erase(std::remove(name.begin(), name.end(), ' '), name.end());
 	skip |= config.is_function_skipping_requested(qualified_name);
-- 
2.43.0


From b2aa0258aa240f18cfba08c44a1bd8384799d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:04 +0000
Subject: [PATCH 11/63] fix: call the very same function template
 specialization when default arguments are omitted

---
 source/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function.cpp b/source/function.cpp
index 7b865a5..20e8f10 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -408,10 +408,10 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 			// string object = class_qualified_name( m->getParent() ) + (m->isConst() ? " const" : "") + " &o" + ( args_to_bind ? ", " : "" );
 			string object = class_qualified_name(parent ? parent : m->getParent()) + (m->isConst() ? " const" : "") + " &o" +
 							(args_to_bind ? ", " : ""); // forcing object type to be of parent class so member function with lifted access could be used
-			function = "[]({}{}) -> {} {{ return o.{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), args.second);
+			function = "[]({}{}) -> {} {{ return o.{}{}({}); }}"_format(object, args.first, return_type, F->getNameAsString(), template_specialization(F), args.second);
 		}
 		else {
-			function = "[]({}) -> {} {{ return {}({}); }}"_format(args.first, return_type, function_qualified_name, args.second);
+			function = "[]({}) -> {} {{ return {}{}({}); }}"_format(args.first, return_type, function_qualified_name, template_specialization(F), args.second);
 		}
 	}
 
-- 
2.43.0


From bdc4ff2cbce2bd6823364017063034e57b4bdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 12/63] fix: look through typedefs when determining which class
 a pointer or reference type refers to

---
 source/type.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index e903497..cca8446 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -45,9 +45,9 @@ namespace binder {
 /// check if user requested binding for the given QualType
 bool is_binding_requested(clang::QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_binding_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_binding_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_binding_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_binding_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_binding_requested(r, config);
 
@@ -58,9 +58,9 @@ bool is_binding_requested(clang::QualType const &qt, Config const &config)
 // check if user requested skipping for the given declaration
 bool is_skipping_requested(QualType const &qt, Config const &config)
 {
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) return is_skipping_requested(pt->getPointeeType(), config);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) return is_skipping_requested(pt->getPointeeType(), config);
 
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) return is_skipping_requested(rt->getPointeeType(), config);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) return is_skipping_requested(rt->getPointeeType(), config);
 
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) return is_skipping_requested(r, config);
 
@@ -448,9 +448,9 @@ void request_bindings(clang::QualType const &qt, Context &context)
 			if( td->isCompleteDefinition() or dyn_cast<ClassTemplateSpecializationDecl>(td) ) context.request_bindings(typename_from_type_decl(td));
 		}
 
-		if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) { request_bindings(pt->getPointeeType() /*.getCanonicalType()*/, context); }
 
-		if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
+		if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) { request_bindings(rt->getPointeeType() /*.getCanonicalType()*/, context); }
 	}
 }
 
-- 
2.43.0


From 3b00e868bd7bcf1e4b1e94e6944c113f4171ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:31 +0000
Subject: [PATCH 13/63] fix: do not bypass private, excluded, const-overload or
 virtual-base-dominating overriders in call-back structures

---
 source/class.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index e875258..4377db8 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,6 +19,7 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/CXXInheritance.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -661,6 +662,22 @@ bool is_callback_structure_needed(CXXRecordDecl const *C)
 	return false;
 }
 
+// collect all virtual member functions (from class itself and its bases) that are still in effect in given class, i.e. ones that was not overridden
+set<CXXMethodDecl const *> final_overriders(CXXRecordDecl const *C)
+{
+	set<CXXMethodDecl const *> r;
+	if( C->hasDefinition() ) {
+		CXXFinalOverriderMap overriders;
+		C->getFinalOverriders(overriders);
+		for( auto &m : overriders ) {
+			for( auto &subobject : m.second ) {
+				for( auto &overrider : subobject.second ) r.insert(overrider.Method->getCanonicalDecl());
+			}
+		}
+	}
+	return r;
+}
+
 // Check if call-back structure that we can create will be constructible
 bool is_callback_structure_constructible(CXXRecordDecl const *C)
 {
@@ -724,7 +741,7 @@ if (overload) {{
 
 
 // generate call-back overloads for all public virtual functions in C including it bases
-string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<string> &binded, int &ret_id,
+string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<CXXMethodDecl const *> const &overriders, set<string> &binded, int &ret_id,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
 	string c;
@@ -733,6 +750,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 		if( (m->getAccess() != AS_private) and is_bindable(*m) and is_overloadable(*m) //
 			and !is_skipping_requested(*m, Config::get()) //
 			and !isa<CXXConstructorDecl>(*m) and !isa<CXXDestructorDecl>(*m) and m->isVirtual() //
+			and overriders.count(m->getCanonicalDecl()) // otherwise call-back would bypass the overrider when there is no Python override
 			and !is_const_overload(
 					*m) // was ( !is_const_overload(*m) or m->isPure() ) but now we ignoring this case since it is not possible to overload both const and non-const variants in Python anyway
 		) {
@@ -832,7 +850,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ overriders, binded, ret_id, prefix_includes_);
 				}
 			}
 		}
@@ -854,7 +872,7 @@ void ClassBinder::generate_prefix_code()
 
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ binded, ret_id, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ final_overriders(C), binded, ret_id, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From c2a9077e44324f4c2a83a97eee99c1aa34e9a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 14/63] fix: do not generate constructors for call-back
 structures that could not implement pure const overloads inherited from base
 classes

---
 source/class.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 4377db8..921b044 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -682,6 +682,14 @@ set<CXXMethodDecl const *> final_overriders(CXXRecordDecl const *C)
 bool is_callback_structure_constructible(CXXRecordDecl const *C)
 {
 	if( C->isAbstract() ) {
+		for( auto m : final_overriders(C) ) { // const overloads are never overridden in call-back structure
+#if( LLVM_VERSION_MAJOR >= 18 )
+			if( m->isPureVirtual() and is_const_overload(const_cast<CXXMethodDecl *>(m)) ) return false;
+#else
+			if( m->isPure() and is_const_overload(const_cast<CXXMethodDecl *>(m)) ) return false;
+#endif
+		}
+
 		for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 #if( LLVM_VERSION_MAJOR >= 18 )
 			if( m->isPureVirtual() and !isa<CXXConstructorDecl>(*m) and (m->getAccess() == AS_private or !is_bindable(*m) or is_skipping_requested(*m, Config::get())) ) return false;
-- 
2.43.0


From 447debf9c961bcd4fcf2ef9b84575fbcff088b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 15/63] fix: do not export values of scoped enums declared with
 'enum struct'

---
 source/enum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/enum.cpp b/source/enum.cpp
index 32eb8f1..257163a 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -142,7 +142,7 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 	}
 	r.pop_back();
 
-	return r + (E->isScopedUsingClassTag() ? ";\n\n" : "\n\t\t.export_values();\n\n");
+	return r + (E->isScoped() ? ";\n\n" : "\n\t\t.export_values();\n\n");
 }
 
 
-- 
2.43.0


From 70983a02f1996f504235eb79569beccd90b32893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:18 +0000
Subject: [PATCH 16/63] fix: request bindings for types of arguments of
 variadic constructors

---
 source/class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 921b044..150eecb 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1108,7 +1108,11 @@ string bind_constructor(ConstructorBindingInfo const &CBI, uint args_to_bind, bo
 
 		string args_helper;
 
-		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) { args_helper += ", pybind11::arg(\"{}\")"_format(string(CBI.T->getParamDecl(i)->getName())); }
+		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) {
+			args_helper += ", pybind11::arg(\"{}\")"_format(string(CBI.T->getParamDecl(i)->getName()));
+
+			if( request_bindings_f ) request_bindings(CBI.T->getParamDecl(i)->getOriginalType(), CBI.context);
+		}
 
 		// if( CBI.T->isVariadic() ) c += fmt::format(constructor_lambda_template, params, args.second, constructor_types.first, constructor_types.second);
 		// else if( constructor_types.first.size()  and  constructor_types.second.size() ) c += fmt::format(constructor_lambda_template, params, args.second, constructor_types.first,
-- 
2.43.0


From 888a266982777e8f24481eb4c5ed21d40c01f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:43 +0000
Subject: [PATCH 17/63] fix: keep argument names in constructors of classes
 with call-back structures when default arguments are omitted

---
 source/class.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 150eecb..aa2ebb0 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1068,9 +1068,8 @@ struct ConstructorBindingInfo
 // char const * constructor_if_template = "\tcl.def(\"__init__\", [cl_type](pybind11::handle self_{0}) {{ if (self_.get_type() == cl_type) new (self_.cast<{2} *>()) {2}({1}); else new (self_.cast<{3}
 // *>()) {3}({1}); }}, \"doc\");";
 
-char const *constructor_template = "\tcl.def( pybind11::init( []({0}){{ return new {2}({1}); }} ), \"doc\");";
 char const *constructor_template_with_py_arg = "\tcl.def( pybind11::init( []({0}){{ return new {2}({1}); }} ), \"doc\" {3});";
-char const *constructor_with_trampoline_template = "\tcl.def( pybind11::init( []({0}){{ return new {2}({1}); }}, []({0}){{ return new {3}({1}); }} ), \"doc\");";
+char const *constructor_with_trampoline_template = "\tcl.def( pybind11::init( []({0}){{ return new {2}({1}); }}, []({0}){{ return new {3}({1}); }} ), \"doc\" {4});";
 // char const * constructor_lambda_template = "\tcl.def(pybind11::init( []({0}){{ return new {2}({1}); }}, []({0}){{ return new {3}({1}); }} ), \"doc\");";
 
 
@@ -1119,8 +1118,8 @@ string bind_constructor(ConstructorBindingInfo const &CBI, uint args_to_bind, bo
 		// constructor_types.second); else if( constructor_types.first.size() ) c += fmt::format(constructor_template, params, args.second, constructor_types.first); else c +=
 		// fmt::format(constructor_template, params, args.second, constructor_types.second);
 
-		if( CBI.C->isAbstract() ) c += fmt::format(constructor_template, params, args.second, CBI.trampoline_qualified_name);
-		else if( CBI.trampoline ) c += fmt::format(constructor_with_trampoline_template, params, args.second, CBI.class_qualified_name, CBI.trampoline_qualified_name);
+		if( CBI.C->isAbstract() ) c += fmt::format(constructor_template_with_py_arg, params, args.second, CBI.trampoline_qualified_name, args_helper);
+		else if( CBI.trampoline ) c += fmt::format(constructor_with_trampoline_template, params, args.second, CBI.class_qualified_name, CBI.trampoline_qualified_name, args_helper);
 		else c += fmt::format(constructor_template_with_py_arg, params, args.second, CBI.class_qualified_name, args_helper);
 	}
 
-- 
2.43.0


From bb6f673ff96c7c5feb7db941d7e6418333e40ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:59 +0000
Subject: [PATCH 18/63] fix: do not mix up insertion operators of class
 templates that have the same name in different namespaces

---
 source/context.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 5438519..1d47d12 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -157,7 +157,16 @@ void Context::add(BinderOP &b)
 
 void Context::add_insertion_operator(clang::FunctionDecl const *F)
 {
-	insertion_operators[function_pointer_type(F)] = F;
+	string key = function_pointer_type(F);
+
+	// types of templated arguments are printed without namespaces so we need to add name of the template to tell apart templates with the same name from different namespaces
+	if( F->getNumParams() == 2 and F->getParamDecl(1)->getType()->isInstantiationDependentType() ) {
+		if( auto tst = F->getParamDecl(1)->getType().getNonReferenceType()->getAs<TemplateSpecializationType>() ) {
+			if( TemplateDecl const *td = tst->getTemplateName().getAsTemplateDecl() ) key += ' ' + td->getQualifiedNameAsString();
+		}
+	}
+
+	insertion_operators[key] = F;
 }
 
 /// find global insertion operator for given type, return nullptr if not such operator find
@@ -177,7 +186,7 @@ clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDe
 		op_pointer.pop_back();
 		op_pointer.back() = '>';
 		fix_boolean_types(op_pointer);
-		op_pointer += " &)";
+		op_pointer += " &) " + t->getSpecializedTemplate()->getQualifiedNameAsString();
 
 		// outs() << "Looking for operator: " << op_pointer << "\n";
 
-- 
2.43.0


From b29855e89f2480356137d5e15de4d26b3f86bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 19/63] fix: find insertion operators of unions and of class
 template specializations with more than one argument

---
 source/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 1d47d12..b818a80 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -172,7 +172,9 @@ void Context::add_insertion_operator(clang::FunctionDecl const *F)
 /// find global insertion operator for given type, return nullptr if not such operator find
 clang::FunctionDecl const *Context::global_insertion_operator(clang::CXXRecordDecl const *C)
 {
-	string op_pointer = "std::ostream & (*)(std::ostream &, const " + (C->isStruct() ? string("struct ") : string("class ")) + class_qualified_name(C) + " &)";
+	ASTContext &ast_context(C->getASTContext());
+	string op_pointer = "std::ostream & (*)(std::ostream &, " + standard_name(ast_context.getLValueReferenceType(ast_context.getRecordType(C).withConst())) + ")";
+	fix_boolean_types(op_pointer);
 
 	// outs() << "Looking for operator: " << op_pointer << "\n";
 
-- 
2.43.0


From 2abb8d52af1152e5a396a563dc5f1824abd2be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 20/63] fix: do not generate default constructors for classes
 whose implicit default constructor is deleted, and do not omit those that are
 available

---
 source/class.cpp | 81 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 16 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index aa2ebb0..e49bfc7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,7 +19,9 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/CXXInheritance.h>
+#include <clang/AST/DeclFriend.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -502,27 +504,74 @@ void add_relevant_includes_cached(clang::CXXRecordDecl const *C, IncludeSet &inc
 // 	return true;
 // }
 
-// Check if all bases have public default constructors
-bool base_default_default_constructor_available(CXXRecordDecl const *C)
+bool is_implicit_default_constructor_available(CXXRecordDecl const *C);
+
+// Check if class 'C' could use members of class 'R' that have access 'access' when initializing base class sub-object or data member of type 'R'
+bool is_member_accessible(CXXRecordDecl const *R, AccessSpecifier access, CXXRecordDecl const *C, bool is_base)
 {
-	for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
-		if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
-			if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
+	if( access == AS_public or access == AS_none or (access == AS_protected and is_base) ) return true;
 
-				if( !R->hasDefaultConstructor() ) return false;
+	for( auto f : R->friends() ) {
+		if( TypeSourceInfo const *t = f->getFriendType() ) {
+			CXXRecordDecl const *F = t->getType()->getAsCXXRecordDecl();
+			if( F and F->getCanonicalDecl() == C->getCanonicalDecl() ) return true;
+		}
+	}
+	return false;
+}
 
-				for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
-					if( t->isDefaultConstructor() ) {
-						if( t->getAccess() == AS_private /*or  !t->isUserProvided()*/ or t->isDeleted() ) return false;
-					}
-				}
+// Check if default constructor of 'C' could default-initialize base class sub-object or data member of type 'R'
+bool is_default_initializable(CXXRecordDecl const *R, CXXRecordDecl const *C, bool is_base)
+{
+	if( !R->hasDefinition() ) return true;
+	R = R->getDefinition();
+
+	if( !R->hasDefaultConstructor() ) return false;
 
-				if( !base_default_default_constructor_available(R) ) return false;
+	if( CXXDestructorDecl const *d = R->getDestructor() ) {
+		if( d->isDeleted() or !is_member_accessible(R, d->getAccess(), C, is_base) ) return false;
+	}
+
+	for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
+		if( t->isDefaultConstructor() and (t->isDeleted() or !is_member_accessible(R, t->getAccess(), C, is_base)) ) return false;
+	}
+
+	return !R->needsImplicitDefaultConstructor() or is_implicit_default_constructor_available(R);
+}
+
+// Check if implicit default constructor of given class is not defined as deleted: all bases and data members should be default-initializable
+bool is_implicit_default_constructor_available(CXXRecordDecl const *C)
+{
+	for( auto const &b : C->bases() ) {
+		CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl();
+		if( R and !is_default_initializable(R, C, true) ) return false;
+	}
+
+	for( auto const &b : C->vbases() ) {
+		CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl();
+		if( R and !is_default_initializable(R, C, true) ) return false;
+	}
+
+	bool all_const = true;
+	for( auto f : C->fields() ) {
+		if( f->isUnnamedBitfield() ) continue;
+
+		QualType qt = C->getASTContext().getBaseElementType(f->getType());
+		all_const &= qt.isConstQualified();
+
+		if( f->hasInClassInitializer() ) continue;
+		if( qt->isReferenceType() ) return false;
+
+		if( CXXRecordDecl const *R = qt->getAsCXXRecordDecl() ) {
+			if( C->isUnion() ) {
+				if( R->hasNonTrivialDefaultConstructor() ) return false;
 			}
+			else if( !is_default_initializable(R, C, false) or (qt.isConstQualified() and !R->allowConstDefaultInit()) ) return false;
 		}
+		else if( qt.isConstQualified() and !C->isUnion() ) return false;
 	}
 
-	return true;
+	return not( C->isUnion() and all_const and !C->field_empty() );
 }
 
 
@@ -1423,10 +1472,10 @@ void ClassBinder::bind(Context &context)
 			}
 		}
 
-		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} base_default_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
-		// C->needsImplicitDefaultConstructor(), base_default_default_constructor_available(C));
+		// c += "\t// hasDefaultConstructor={} needsImplicitDefaultConstructor={} is_implicit_default_constructor_available={}\n"_format(C->hasDefaultConstructor(),
+		// C->needsImplicitDefaultConstructor(), is_implicit_default_constructor_available(C));
 
-		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and base_default_default_constructor_available(C)
+		if( !default_constructor_processed and C->needsImplicitDefaultConstructor() and is_implicit_default_constructor_available(C)
 			// ( C->ctor_begin() == C->ctor_end() and  is_default_default_constructor_available(C)  and  !default_constructor_processed)
 			// or (C->hasDefaultConstructor()  and  !default_constructor_processed )
 
-- 
2.43.0


From b11597443d9c02850f7d452bdc07763a6fe7f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 21/63] fix: do not bind inherited constructors that are not
 public

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index e49bfc7..2619bd5 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1453,7 +1453,7 @@ void ClassBinder::bind(Context &context)
 					for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
 						if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
 							if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(us->getTargetDecl()) ) {
-								if( is_bindable(t) ) {
+								if( t->getAccess() == AS_public and is_bindable(t) ) { // inherited constructors have the same access as the original ones
 									ConstructorBindingInfo CBI = {C, t, trampoline, qualified_name, trampoline_name, context};
 
 									if( t->isCopyConstructor() /*and  not copy_constructor_processed*/ ) {
-- 
2.43.0


From 290f037445637dba698c89f76b507964f72d6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:23 +0000
Subject: [PATCH 22/63] fix: do not generate constructors for classes that
 could not be destroyed, nor call-back structures that could not be derived

---
 source/class.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2619bd5..cedf2f4 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -730,6 +730,10 @@ set<CXXMethodDecl const *> final_overriders(CXXRecordDecl const *C)
 // Check if call-back structure that we can create will be constructible
 bool is_callback_structure_constructible(CXXRecordDecl const *C)
 {
+	if( CXXDestructorDecl *d = C->getDestructor() ) {
+		if( d->getAccess() == AS_private or d->isDeleted() ) return false; // it is not possible to derive from such class
+	}
+
 	if( C->isAbstract() ) {
 		for( auto m : final_overriders(C) ) { // const overloads are never overridden in call-back structure
 #if( LLVM_VERSION_MAJOR >= 18 )
@@ -1386,12 +1390,16 @@ void ClassBinder::bind(Context &context)
 	string holder_type = Config::get().holder_type();
 
 	string maybe_holder_type = ", {}<{}>"_format(holder_type, qualified_name);
+	bool constructible = true;
 
 	if( is_inherited_from_enable_shared_from_this(C) ) {
 		maybe_holder_type = ", {}<{}>"_format(holder_type, qualified_name);
 	}
 	else if( CXXDestructorDecl *d = C->getDestructor() ) {
-		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
+		if( d->getAccess() != AS_public or d->isDeleted() ) {
+			maybe_holder_type = ", " + qualified_name + '*';
+			constructible = C->isAbstract(); // Pybind11 can not create instances of class when raw pointer is used as holder
+		}
 	}
 	string maybe_trampoline = callback_structure_constructible ? ", " + binding_qualified_name : "";
 
@@ -1422,7 +1430,7 @@ void ClassBinder::bind(Context &context)
 
 	// if( C->isAbstract()  and  callback_structure) c += "\tcl.def(pybind11::init<>());\n";
 
-	if( (!C->isAbstract() or callback_structure_constructible) and named_class ) {
+	if( constructible and (!C->isAbstract() or callback_structure_constructible) and named_class ) {
 		bool default_constructor_processed = false;
 		// bool copy_constructor_processed = false;
 
-- 
2.43.0


From bfb1a3c7f82437ace1c0572ef9aa8a6605066ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:31 +0000
Subject: [PATCH 23/63] fix: bind data members as read-only when their type,
 named through a typedef or qualified name, is not assignable

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index cedf2f4..e337e55 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -145,7 +145,7 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 
 bool is_field_assignable(FieldDecl const *f)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
+	if( RecordType const *r = f->getType()->getAs<RecordType>() ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-- 
2.43.0


From 1e537221d459aae6226bc34ff7cc4ccf1b765318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:31 +0000
Subject: [PATCH 24/63] fix: do not bind bit-fields

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index e337e55..ea3a0d7 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -166,6 +166,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // no pointer to bit-field could be formed
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From 0dfbd2d0f379bb91030fedb7e9bfe8a7bf4eb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:45 +0000
Subject: [PATCH 25/63] fix: bind data members of nested anonymous structures

---
 source/class.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index ea3a0d7..07a5b1c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -177,12 +177,18 @@ bool is_bindable(FieldDecl *f)
 // Generate bindings for class data member
 string bind_data_member(FieldDecl const *d, string const &class_qualified_name_)
 {
-	static vector<string> anonymous_types{"::(anonymous)", "::(anonymous union)"};
+	static vector<string> anonymous_types{"::(anonymous)", "::(anonymous union)", "::(anonymous struct)", "::(anonymous class)"};
 
 	string class_qualified_name = class_qualified_name_;
 
-	for( const auto &anonymous : anonymous_types ) {
-		if( ends_with(class_qualified_name, anonymous) ) class_qualified_name.resize(class_qualified_name.size() - anonymous.size());
+	for( bool found = true; found; ) { // anonymous types could be nested
+		found = false;
+		for( const auto &anonymous : anonymous_types ) {
+			if( ends_with(class_qualified_name, anonymous) ) {
+				class_qualified_name.resize(class_qualified_name.size() - anonymous.size());
+				found = true;
+			}
+		}
 	}
 
 	if( d->getType().isConstQualified() or !is_field_assignable(d) ) return ".def_readonly(\"{}\", &{}::{})"_format(d->getNameAsString(), class_qualified_name, d->getNameAsString());
-- 
2.43.0


From 8906c163208b0e7948eedfae756546641c4e750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 26/63] fix: do not generate default constructors for classes
 with anonymous unions whose members can not be default-initialized

---
 source/class.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 07a5b1c..6a7d78b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -571,10 +571,8 @@ bool is_implicit_default_constructor_available(CXXRecordDecl const *C)
 		if( qt->isReferenceType() ) return false;
 
 		if( CXXRecordDecl const *R = qt->getAsCXXRecordDecl() ) {
-			if( C->isUnion() ) {
-				if( R->hasNonTrivialDefaultConstructor() ) return false;
-			}
-			else if( !is_default_initializable(R, C, false) or (qt.isConstQualified() and !R->allowConstDefaultInit()) ) return false;
+			if( C->isUnion() and !R->hasTrivialDefaultConstructor() ) return false;
+			if( !is_default_initializable(R, C, false) or (qt.isConstQualified() and !C->isUnion() and !R->allowConstDefaultInit()) ) return false;
 		}
 		else if( qt.isConstQualified() and !C->isUnion() ) return false;
 	}
-- 
2.43.0


From 36e361433a94ece78ad398fba0e3e3c688a79c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:22 +0000
Subject: [PATCH 27/63] fix: do not bind inherited constructors that are
 implicitly deleted

---
 source/class.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 6a7d78b..448a54d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -512,7 +512,7 @@ void add_relevant_includes_cached(clang::CXXRecordDecl const *C, IncludeSet &inc
 // 	return true;
 // }
 
-bool is_implicit_default_constructor_available(CXXRecordDecl const *C);
+bool is_implicit_default_constructor_available(CXXRecordDecl const *C, CXXRecordDecl const *ignored_base = nullptr);
 
 // Check if class 'C' could use members of class 'R' that have access 'access' when initializing base class sub-object or data member of type 'R'
 bool is_member_accessible(CXXRecordDecl const *R, AccessSpecifier access, CXXRecordDecl const *C, bool is_base)
@@ -547,12 +547,12 @@ bool is_default_initializable(CXXRecordDecl const *R, CXXRecordDecl const *C, bo
 	return !R->needsImplicitDefaultConstructor() or is_implicit_default_constructor_available(R);
 }
 
-// Check if implicit default constructor of given class is not defined as deleted: all bases and data members should be default-initializable
-bool is_implicit_default_constructor_available(CXXRecordDecl const *C)
+// Check if implicit default constructor of given class is not defined as deleted: all bases (but ignored_base) and data members should be default-initializable
+bool is_implicit_default_constructor_available(CXXRecordDecl const *C, CXXRecordDecl const *ignored_base)
 {
 	for( auto const &b : C->bases() ) {
 		CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl();
-		if( R and !is_default_initializable(R, C, true) ) return false;
+		if( R and !(ignored_base and R->getCanonicalDecl() == ignored_base->getCanonicalDecl()) and !is_default_initializable(R, C, true) ) return false;
 	}
 
 	for( auto const &b : C->vbases() ) {
@@ -1467,6 +1467,8 @@ void ClassBinder::bind(Context &context)
 					for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
 						if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
 							if( CXXConstructorDecl *t = dyn_cast<CXXConstructorDecl>(us->getTargetDecl()) ) {
+								ConstructorUsingShadowDecl *cus = dyn_cast<ConstructorUsingShadowDecl>(us);
+								if( cus and !is_implicit_default_constructor_available(C, cus->getNominatedBaseClass()) ) continue; // inherited constructors are deleted
 								if( t->getAccess() == AS_public and is_bindable(t) ) { // inherited constructors have the same access as the original ones
 									ConstructorBindingInfo CBI = {C, t, trampoline, qualified_name, trampoline_name, context};
 
-- 
2.43.0


From a58f0120b6187d2137460a556916fdc2349950e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:22 +0000
Subject: [PATCH 28/63] fix: do not generate call-back structures that could
 not initialize virtual base classes

---
 source/class.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 448a54d..58b67ec 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -522,7 +522,7 @@ bool is_member_accessible(CXXRecordDecl const *R, AccessSpecifier access, CXXRec
 	for( auto f : R->friends() ) {
 		if( TypeSourceInfo const *t = f->getFriendType() ) {
 			CXXRecordDecl const *F = t->getType()->getAsCXXRecordDecl();
-			if( F and F->getCanonicalDecl() == C->getCanonicalDecl() ) return true;
+			if( F and C and F->getCanonicalDecl() == C->getCanonicalDecl() ) return true;
 		}
 	}
 	return false;
@@ -740,6 +740,11 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 		if( d->getAccess() == AS_private or d->isDeleted() ) return false; // it is not possible to derive from such class
 	}
 
+	for( auto const &b : C->vbases() ) { // virtual bases are default-initialized by call-back structure itself
+		CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl();
+		if( R and !is_default_initializable(R, nullptr, true) ) return false;
+	}
+
 	if( C->isAbstract() ) {
 		for( auto m : final_overriders(C) ) { // const overloads are never overridden in call-back structure
 #if( LLVM_VERSION_MAJOR >= 18 )
-- 
2.43.0


From ba7483fbf92103e4484fe54565dc1ef3a08160e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 29/63] fix: do not generate copy constructors for call-back
 structures that could not be copied

---
 source/class.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 58b67ec..cc92b0d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -777,6 +777,19 @@ bool is_callback_structure_constructible(CXXRecordDecl const *C)
 	return true;
 }
 
+// Check if call-back structure could be copied: virtual bases are copied by call-back structure itself
+bool is_callback_structure_copyable(CXXRecordDecl const *C)
+{
+	for( auto const &b : C->vbases() ) {
+		if( CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl() ) {
+			for( auto t = R->ctor_begin(); t != R->ctor_end(); ++t ) {
+				if( t->isCopyConstructor() and (t->isDeleted() or t->getAccess() == AS_private) ) return false;
+			}
+		}
+	}
+	return true;
+}
+
 /*
 // call_back_function_body_template is almost like PYBIND11_OVERLOAD_INT but specify pybind11::return_value_policy::reference
 // #define PYBIND11_OVERLOAD_INT(ret_type, cname, name, ...) { \
@@ -1455,7 +1468,8 @@ void ClassBinder::bind(Context &context)
 					//(*t) -> dump();
 					//constructors += "// CC " + standard_name(t->getQualifiedNameAsString()) + "\n";
 					//constructors += "// CC " + function_qualified_name(*t, true) + "\n";
-					constructors += bind_copy_constructor(CBI);
+					if( trampoline and !is_callback_structure_copyable(C) ) CBI.trampoline = false;
+					if( CBI.trampoline or !C->isAbstract() ) constructors += bind_copy_constructor(CBI);
 					//constructors += "// CC \n";
 					// copy_constructor_processed = true;
 				}
-- 
2.43.0


From e8ec12d79f5dadcf1bc6b08f3357e6a51c68c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:05 +0000
Subject: [PATCH 30/63] fix: match fields and enums of class template
 specializations with more than one argument in directives

---
 source/config.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4d4198a..bfdb2e4 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -393,12 +393,18 @@ bool Config::is_class_skipping_requested(string const &class__) const
 
 bool Config::is_field_skipping_requested(string const &field_) const
 {
-	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field_) != fields_to_skip.end();
+	string field{field_};
+	field.erase(std::remove(field.begin(), field.end(), ' '), field.end());
+
+	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field) != fields_to_skip.end();
 }
 
 
-bool Config::is_enum_binding_requested(string const &enum_) const
+bool Config::is_enum_binding_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_bind.begin(), enums_to_bind.end(), enum_);
 
 	if( bind != enums_to_bind.end() ) return true;
@@ -407,8 +413,11 @@ bool Config::is_enum_binding_requested(string const &enum_) const
 }
 
 
-bool Config::is_enum_skipping_requested(string const &enum_) const
+bool Config::is_enum_skipping_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_skip.begin(), enums_to_skip.end(), enum_);
 
 	if( bind != enums_to_skip.end() ) return true;
-- 
2.43.0


From f0d3693a2e88223f1613f588c7f4daf7ee9df485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:08 +0000
Subject: [PATCH 31/63] fix: bind data members that were made public by 'using'
 declaration when base class is not public

---
 source/class.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index cc92b0d..67682e2 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -196,6 +196,40 @@ string bind_data_member(FieldDecl const *d, string const &class_qualified_name_)
 }
 
 
+// Check if data member of one of the base classes of C could be accessed only through C itself, i.e. if it was inherited through non-public base
+bool is_inherited_through_non_public_base(FieldDecl const *f, CXXRecordDecl const *C)
+{
+	CXXRecordDecl const *P = cast<CXXRecordDecl>(f->getParent());
+
+	for( auto const &b : C->bases() ) {
+		if( CXXRecordDecl const *R = b.getType()->getAsCXXRecordDecl() ) {
+			if( R->getCanonicalDecl() == P->getCanonicalDecl() or (R->hasDefinition() and R->isDerivedFrom(P)) ) {
+				if( b.getAccessSpecifier() == AS_public ) return R->getCanonicalDecl() != P->getCanonicalDecl() and is_inherited_through_non_public_base(f, R->getDefinition());
+				return true;
+			}
+		}
+	}
+	return false;
+}
+
+// Generate bindings for data member that was made public by 'using' declaration: pointer to such member could not be used when base class is not accessible
+string bind_lifted_data_member(FieldDecl const *d, CXXRecordDecl const *C)
+{
+	string const class_name = class_qualified_name(C);
+
+	if( not is_inherited_through_non_public_base(d, C) ) return bind_data_member(d, class_name);
+
+	string const name = d->getNameAsString();
+	string type = standard_name(d->getType().getUnqualifiedType());
+	fix_boolean_types(type);
+
+	string const getter = "[]({} const &o) -> {} const & {{ return o.{}; }}"_format(class_name, type, name);
+
+	if( d->getType().isConstQualified() or !is_field_assignable(d) ) return ".def_property_readonly(\"{}\", {})"_format(name, getter);
+	else return ".def_property(\"{0}\", {1}, []({2} &o, {3} const &v) {{ o.{0} = v; }})"_format(name, getter, class_name, type);
+}
+
+
 // Check if given method is const-overload (and return-const-overload) of some other method in class
 bool is_const_overload(CXXMethodDecl *mc)
 {
@@ -653,7 +687,7 @@ string binding_public_data_members(CXXRecordDecl const *C)
 							if ( config.is_field_skipping_requested(f->getQualifiedNameAsString())) {
 								continue;
 							}
-							if( is_bindable(f) ) c += "\tcl" + bind_data_member(f, class_qualified_name(C)) + ";\n";
+							if( is_bindable(f) ) c += "\tcl" + bind_lifted_data_member(f, C) + ";\n";
 						}
 					}
 				}
-- 
2.43.0


From 4a2b8b2071e0ef062704844a4569d586c3ce26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:17 +0000
Subject: [PATCH 32/63] fix: check if type is bindable for types returned by
 function that are named by typedef

---
 source/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function.cpp b/source/function.cpp
index 20e8f10..e2d30d0 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -525,7 +525,7 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
-	QualType rt(F->getReturnType());
+	QualType rt(F->getReturnType().getCanonicalType());
 
 	r &= is_bindable(rt);
 
-- 
2.43.0


From 35cf4342a77dc4f277da97828ecfaa660bda0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:15 +0000
Subject: [PATCH 33/63] fix: do not bind functions that take or return pointers
 to members

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index cca8446..271fb94 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -391,7 +391,7 @@ bool is_bindable(QualType const &qt)
 {
 	bool r = true;
 
-	r &= !qt->isFunctionPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
+	r &= !qt->isFunctionPointerType() and !qt->isMemberPointerType() and !qt->isRValueReferenceType() and !qt->isInstantiationDependentType() and
 		 !qt->isArrayType(); // and  !qt->isConstantArrayType()  and  !qt->isIncompleteArrayType()  and  !qt->isVariableArrayType()  and  !qt->isDependentSizedArrayType()
 
 	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) {
-- 
2.43.0


From fa163bbadd98d6c6637b977af3dc005d0252f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:15 +0000
Subject: [PATCH 34/63] fix: do not bind functions that take or return enums
 from anonymous namespaces

---
 source/type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/type.cpp b/source/type.cpp
index 271fb94..fdd6fd7 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -432,6 +432,9 @@ bool is_bindable(QualType const &qt)
 		}
 		if( TagDecl *td = tp->getAsTagDecl() ) {
 			if( td->getAccess() == AS_protected or td->getAccess() == AS_private ) return false;
+			if( EnumDecl *ed = dyn_cast<EnumDecl>(td) ) {
+				if( ed->isInAnonymousNamespace() ) return false; // type could not be named in generated code
+			}
 		}
 	}
 
-- 
2.43.0


From d4b2157008384d436af7de0d9e3253f46a85d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:15 +0000
Subject: [PATCH 35/63] fix: do not bind functions that return references to
 functions

---
 source/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index e2d30d0..e1ecf08 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -529,6 +529,8 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	r &= is_bindable(rt);
 
+	if( rt->isFunctionReferenceType() ) return false; // refuse to bind functions that return 'R (&)(A...)'
+
 	for( auto p = F->param_begin(); p != F->param_end(); ++p ) r &= is_bindable((*p)->getOriginalType().getCanonicalType());
 	// outs() << "is_bindable: " << F->getQualifiedNameAsString() << " " << r << "\n";
 
-- 
2.43.0


From 94a19e757cf5b29ab661dd378edd001151ca1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:15 +0000
Subject: [PATCH 36/63] fix: do not bind functions that take non-const
 references to pointers

---
 source/function.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/function.cpp b/source/function.cpp
index e1ecf08..f01823d 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -531,7 +531,13 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	if( rt->isFunctionReferenceType() ) return false; // refuse to bind functions that return 'R (&)(A...)'
 
-	for( auto p = F->param_begin(); p != F->param_end(); ++p ) r &= is_bindable((*p)->getOriginalType().getCanonicalType());
+	for( auto p = F->param_begin(); p != F->param_end(); ++p ) {
+		QualType pt((*p)->getOriginalType().getCanonicalType());
+		r &= is_bindable(pt);
+
+		// pybind11 can't pass 'T *&' arguments, but it can pass 'T * const &'
+		if( pt->isLValueReferenceType() and pt->getPointeeType()->isPointerType() and !pt->getPointeeType().isConstQualified() ) return false;
+	}
 	// outs() << "is_bindable: " << F->getQualifiedNameAsString() << " " << r << "\n";
 
 	if( r && is_banned_symbol(F) ) return false;
-- 
2.43.0


From 1d480657843c16150cc1ae4fd584fe06157e748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:04 +0000
Subject: [PATCH 37/63] fix: do not bind functions that are declared only as
 friend or inside of other function

---
 source/function.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index f01823d..98f507f 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -515,6 +515,13 @@ bool is_bindable_raw(FunctionDecl const *F)
 		else return false;
 	}
 
+	// friend functions and functions declared inside other functions could be named only if they are also declared in their namespace
+	if( !isa<CXXMethodDecl>(F) ) {
+		bool visible = false;
+		for( auto rd : F->redecls() ) visible |= rd->getFriendObjectKind() == Decl::FOK_None and !rd->isLocalExternDecl();
+		if( !visible ) return false;
+	}
+
 	// bool r = true;
 	bool r = !F->isDeleted(); //  and  !F->isVariadic(); disabled, instead we force bindings with lambda for variadic
 
-- 
2.43.0


From a1a56d128d72fa27f2929e3e2eb322669714db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:04 +0000
Subject: [PATCH 38/63] fix: take ref-qualifiers into account when binding
 member functions

---
 source/class.cpp    | 2 +-
 source/function.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 67682e2..789d0fc 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -244,7 +244,7 @@ bool is_const_overload(CXXMethodDecl *mc)
 			CXXRecordDecl const *C = mc->getParent();
 
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-				if( m->getAccess() == mc->getAccess() and !m->isConst() and function_qualified_name(*m, true) == name ) return true;
+				if( m->getAccess() == mc->getAccess() and !m->isConst() and m->getRefQualifier() == mc->getRefQualifier() and function_qualified_name(*m, true) == name ) return true;
 			}
 		}
 	}
diff --git a/source/function.cpp b/source/function.cpp
index 98f507f..d7ef617 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -252,6 +252,7 @@ string function_pointer_type(FunctionDecl const *F)
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
 		prefix = m->isStatic() ? "" : class_qualified_name(cast<CXXRecordDecl>(F->getParent())) + "::";
 		maybe_const = m->isConst() ? " const" : "";
+		if( m->getRefQualifier() == RQ_LValue ) maybe_const += " &";
 	}
 
 	//r += standard_name(F->getReturnType().getCanonicalType().getAsString());
@@ -530,6 +531,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 		if( !isa<CXXMethodDecl>(F) or (cpp_python_operator(*F).size() == 0) ) return false;
 	}
 
+	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
+		if( m->getRefQualifier() == RQ_RValue ) return false; // could not be called on an lvalue
+	}
+
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
 
 	QualType rt(F->getReturnType().getCanonicalType());
-- 
2.43.0


From 5f60b07f5c2dcbccc91671282b9770fe1e7afe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:04 +0000
Subject: [PATCH 39/63] fix: bind const member functions when their non-const
 overload is not bindable or excluded

---
 source/class.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 789d0fc..c78a404 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -244,7 +244,9 @@ bool is_const_overload(CXXMethodDecl *mc)
 			CXXRecordDecl const *C = mc->getParent();
 
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
-				if( m->getAccess() == mc->getAccess() and !m->isConst() and m->getRefQualifier() == mc->getRefQualifier() and function_qualified_name(*m, true) == name ) return true;
+				if( m->getAccess() == mc->getAccess() and !m->isConst() and m->getRefQualifier() == mc->getRefQualifier() and function_qualified_name(*m, true) == name //
+					and is_bindable(*m) and !is_skipping_requested(*m, Config::get()) )
+					return true;
 			}
 		}
 	}
-- 
2.43.0


From 3c5262ae9bf13e43ba6c2329f71f4e1e53b9f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:04 +0000
Subject: [PATCH 40/63] fix: do not bind user-defined literal operators

---
 source/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index d7ef617..86b2259 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -526,6 +526,8 @@ bool is_bindable_raw(FunctionDecl const *F)
 	// bool r = true;
 	bool r = !F->isDeleted(); //  and  !F->isVariadic(); disabled, instead we force bindings with lambda for variadic
 
+	if( F->getLiteralIdentifier() ) return false; // user-defined literal operators
+
 	if( F->isOverloadedOperator() ) {
 		// outs() << "Operator: " << F->getNameAsString() << '\n';
 		if( !isa<CXXMethodDecl>(F) or (cpp_python_operator(*F).size() == 0) ) return false;
-- 
2.43.0


From f0e90447e565854244ec355f0982f0362d924f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:11 +0000
Subject: [PATCH 41/63] fix: generate ref-qualifiers for member functions of
 call-back structures

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index c78a404..c263746 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -924,7 +924,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 						exception_specification = "throw() ";
 				}
 
-				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
+				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : ""), exception_specification);
 
 				string member_function_name = namespace_from_named_decl(C);
 				if ( member_function_name.length() > 0 ) member_function_name += "::";
-- 
2.43.0


From 20f5135ff4590f876c70682b21838f2521563aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:11 +0000
Subject: [PATCH 42/63] fix: generate exception specifications of call-back
 functions according to these of overriden functions

---
 source/class.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index c263746..c0d1b5d 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -918,10 +918,9 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 				string exception_specification;
 				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+					auto es = fpt->getExceptionSpecType();
+					if( es == EST_BasicNoexcept or es == EST_NoexceptTrue or es == EST_NoThrow or isUnresolvedExceptionSpec(es) ) exception_specification = "noexcept ";
+					if( es == EST_DynamicNone or es == EST_Dynamic or es == EST_MSAny ) exception_specification = "throw() ";
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), string(m->isConst() ? " const" : "") + (m->getRefQualifier() == RQ_LValue ? " &" : ""), exception_specification);
-- 
2.43.0


From 80e72b42c89a8ec190d3d2c86ec6cdf16cc0cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 43/63] fix: print template arguments of explicitly
 instantiated and specialized classes with qualified names

---
 source/main.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/source/main.cpp b/source/main.cpp
index 5db6d64..497b89e 100644
--- a/source/main.cpp
+++ b/source/main.cpp
@@ -78,6 +78,27 @@ string wrap_CXXRecordDecl(CXXRecordDecl *R)
 }
 
 
+/// Clang prints template arguments of explicitly instantiated and explicitly specialized classes as they were written in source, which is valid only
+/// in the namespace of this declaration. Replace them with canonical ones so such types are printed in the same way as implicitly instantiated ones
+class WrittenArgumentsVisitor : public RecursiveASTVisitor<WrittenArgumentsVisitor>
+{
+public:
+	bool shouldVisitTemplateInstantiations() const { return true; }
+
+	bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *C)
+	{
+#if( LLVM_VERSION_MAJOR < 19 )
+		if( !isa<ClassTemplatePartialSpecializationDecl>(C) and C->getTypeAsWritten() ) {
+			ASTContext &context(C->getASTContext());
+			QualType qt = context.getTemplateSpecializationType(TemplateName(C->getSpecializedTemplate()), C->getTemplateArgs().asArray(), context.getTypeDeclType(C));
+			C->setTypeAsWritten(context.getTrivialTypeSourceInfo(qt, C->getLocation()));
+		}
+#endif
+		return true;
+	}
+};
+
+
 class BinderVisitor : public RecursiveASTVisitor<BinderVisitor>
 {
 public:
@@ -206,6 +227,8 @@ public:
 	// override this to call our ExampleVisitor on the entire source file
 	virtual void HandleTranslationUnit(ASTContext &context)
 	{
+		WrittenArgumentsVisitor().TraverseDecl(context.getTranslationUnitDecl());
+
 		visitor->TraverseDecl(context.getTranslationUnitDecl());
 		visitor->generate();
 	}
-- 
2.43.0


From 0b12368a96e96ef98e486b55b8426a7dd58180a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 44/63] fix: do not bind virtual functions that return
 non-const references to pointers

---
 source/function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index 86b2259..47e1de6 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -545,6 +545,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	if( rt->isFunctionReferenceType() ) return false; // refuse to bind functions that return 'R (&)(A...)'
 
+	if( auto m = dyn_cast<CXXMethodDecl>(F) ) { // pybind11 can't return 'T *&' from Python override, but it can return 'T * const &'
+		if( m->isVirtual() and rt->isLValueReferenceType() and rt->getPointeeType()->isPointerType() and !rt->getPointeeType().isConstQualified() ) return false;
+	}
+
 	for( auto p = F->param_begin(); p != F->param_end(); ++p ) {
 		QualType pt((*p)->getOriginalType().getCanonicalType());
 		r &= is_bindable(pt);
-- 
2.43.0


From be4ffa2a9c75d6e1e13dc216b143d887477137fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 45/63] fix: bind nested enums that were declared before their
 definition only once

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index c0d1b5d..448f478 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1564,7 +1564,7 @@ void ClassBinder::bind(Context &context)
 	// binding public enums
 	for( auto d = C->decls_begin(); d != C->decls_end(); ++d ) {
 		if( EnumDecl *e = dyn_cast<EnumDecl>(*d) ) {
-			if( e->getAccess() == AS_public and is_bindable(e) ) {
+			if( e->getAccess() == AS_public and is_bindable(e) and e->isFirstDecl() ) { // bind enum only once if it was also declared without enumerators
 				if( is_skipping_requested(e, Config::get()) ) {
 					//outs() << "Skipping inner class Enum: " << e->getQualifiedNameAsString() << "\n";
 				}
-- 
2.43.0


From 4d38f267fe7b94e51025b0f45a50aefb3fa7ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:26 +0000
Subject: [PATCH 46/63] fix: escape names of types that are placed into string
 literals of generated code

---
 source/class.cpp    |  6 +++---
 source/context.cpp  |  2 +-
 source/function.cpp |  4 ++--
 source/util.cpp     | 14 +++++++++++---
 source/util.hpp     |  3 +++
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 448f478..5cde2c9 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1097,7 +1097,7 @@ string bind_forward_declaration(CXXRecordDecl const *C, Context &context)
 		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
 	}
 
-	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, python_class_name(C)) + "\n\n";
+	c += '\t' + R"(pybind11::class_<{}{}>({}, "{}");)"_format(qualified_name, maybe_holder_type, module_variable_name, escape_string_literal(python_class_name(C))) + "\n\n";
 
 	return c;
 }
@@ -1153,7 +1153,7 @@ void ClassBinder::bind_with(string const &binder, Context &context)
 
 			string templ = mangle_type_name(standard_name(template_argument_to_string(t->getTemplateArgs()[i])), true);
 			fix_boolean_types(templ);
-			c += ", \"" + templ + '"';
+			c += ", \"" + escape_string_literal(templ) + '"';
 		}
 	}
 
@@ -1481,7 +1481,7 @@ void ClassBinder::bind(Context &context)
 				'\n';
 		}
 		c += '\t' +
-			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, maybe_base_classes(context), module_variable_name, python_class_name(C),
+			 R"(pybind11::class_<{}{}{}{}> cl({}, "{}", "{}"{});)"_format(qualified_name, maybe_holder_type, maybe_trampoline, maybe_base_classes(context), module_variable_name, escape_string_literal(python_class_name(C)),
 																		generate_documentation_string_for_declaration(C), extra_annotation) +
 			 '\n';
 	}
diff --git a/source/context.cpp b/source/context.cpp
index b818a80..0e62f52 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -531,7 +531,7 @@ void Context::generate(Config const &config)
 /// generate unique trace line containing `info` to insert into the code
 std::string Context::trace_line(std::string const &info)
 {
-	return "\tstd::cout << \"B" + std::to_string(++trace_counter) + "_[" + info + "]\" << std::endl;\n";
+	return "\tstd::cout << \"B" + std::to_string(++trace_counter) + "_[" + escape_string_literal(info) + "]\" << std::endl;\n";
 }
 
 
diff --git a/source/function.cpp b/source/function.cpp
index 47e1de6..b46a2d3 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -383,8 +383,8 @@ string bind_function(FunctionDecl const *F, uint args_to_bind, bool request_bind
 
 		documentation = generate_documentation_string_for_declaration(F);
 		if( documentation.size() ) documentation += "\\n\\n";
-		documentation += "C++: " + standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
-												 standard_name(F->getReturnType() ) );
+		documentation += "C++: " + escape_string_literal(standard_name(F->getQualifiedNameAsString() + "(" + function_arguments(F) + ')' + (m and m->isConst() ? " const" : "") + " --> " +
+												 standard_name(F->getReturnType() ) ));
 	}
 	else {
 		pair<string, string> args = function_arguments_for_lambda(F, args_to_bind);
diff --git a/source/util.cpp b/source/util.cpp
index 56d52b0..d88848d 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -293,6 +293,16 @@ string mangle_type_name(string const &name, bool mark_template)
 }
 
 
+// escape given text so it could be placed between quotes of C++ string literal
+string escape_string_literal(string text)
+{
+	replace(text, "\\", "\\\\");
+	replace(text, "\"", "\\\"");
+	replace(text, "\n", "\\n");
+	return text;
+}
+
+
 // generate C++ comment line for given declartion along with file path and line number: // core::scoring::vdwaals::VDWAtom file:core/scoring/vdwaals/VDWTrie.hh line:43
 string generate_comment_for_declaration(clang::NamedDecl const *decl)
 {
@@ -357,9 +367,7 @@ std::string generate_documentation_string_for_declaration(clang::Decl const *dec
 		// replace(text, "\n\n\n\n", "\n\n");
 		// replace(text, "\n\n\n",   "\n\n");
 
-		replace(text, "\\", "\\\\");
-		replace(text, "\"", "\\\"");
-		replace(text, "\n", "\\n");
+		text = escape_string_literal(text);
 
 		// outs() << text << "\n";
 	}
diff --git a/source/util.hpp b/source/util.hpp
index ebb5094..79b124f 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -82,6 +82,9 @@ std::string line_number(clang::NamedDecl const *decl);
 /// generate string represeting class name that could be used in python
 std::string mangle_type_name(std::string const &name, bool mark_template = true);
 
+/// escape given text so it could be placed between quotes of C++ string literal
+std::string escape_string_literal(std::string text);
+
 /// generate C++ comment line for given declaration along with file path and line number
 // core::scoring::vdwaals::VDWAtom file:core/scoring/vdwaals/VDWTrie.hh line:43
 std::string generate_comment_for_declaration(clang::NamedDecl const *decl);
-- 
2.43.0


From bd7eb3b7b379103f47ae59c0e9da18e2879aaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:53 +0000
Subject: [PATCH 47/63] fix: generate valid names for call-back structures of
 class templates with arguments like -1 and 'a'

---
 source/class.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5cde2c9..cb7de9b 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -714,7 +714,15 @@ string binding_public_data_members(CXXRecordDecl const *C)
 inline string callback_structure_name(CXXRecordDecl const *C)
 {
 	string ns = replace_(namespace_from_named_decl(C), "::", "_");
-	return mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+	string name = mangle_type_name( "PyCallBack_" + (ns.empty() ? "" : ns + '_') + python_class_name(C), false );
+
+	// values of template arguments might contain characters that could not be a part of C++ identifier: -1, 'a', int[3]
+	string r;
+	for( unsigned char c : name ) {
+		if( std::isalnum(c) or c == '_' or c >= 0x80 ) r.push_back(c);
+		else r += fmt::format("_x{:02x}_", int(c));
+	}
+	return r;
 }
 
 
-- 
2.43.0


From 4b761544a6f634b25d5cc0b587bac947a8af8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 48/63] fix: spell instances of class templates whose only
 argument is an empty parameter pack

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index cb7de9b..dfeac7a 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -62,7 +62,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.size() > 1 ) templ.back() = '>';
+		else templ += '>'; // all arguments are empty parameter packs
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From ee5bbd06765b3e80e8a14d0a5d7eb22b5c5ca670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:28 +0000
Subject: [PATCH 49/63] fix: bind members of class templates whose arguments
 contain parentheses

---
 source/class.cpp    |  2 +-
 source/function.cpp |  8 +-------
 source/util.cpp     | 15 +++++++++++++++
 source/util.hpp     |  3 +++
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index dfeac7a..c5d6b3c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -339,7 +339,7 @@ bool is_bindable_raw(clang::CXXRecordDecl const *C)
 	// if( C->isAnonymousStructOrUnion() ) return false;
 	if( !C->hasNameForLinkage() and !C->isCXXClassMember() ) return false;
 
-	bool anonymous_name = qualified_name.rfind(')') != std::string::npos; // check if type name is "(anonymous)"
+	bool anonymous_name = is_unnamed_or_local(C); // check if type name is "(anonymous)"
 	if( anonymous_name and C->hasNameForLinkage() ) return false;
 	if( anonymous_name and !C->hasNameForLinkage() and !C->isAnonymousStructOrUnion() ) return false;
 
diff --git a/source/function.cpp b/source/function.cpp
index b46a2d3..2e27cef 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -508,13 +508,7 @@ bool is_bindable_raw(FunctionDecl const *F)
 	// }
 
 	// check for functions in anonymous namespaces
-	// if( F->getQualifiedNameAsString().rfind(')') != std::string::npos ) return false;
-	auto qualified_name = F->getQualifiedNameAsString();
-	auto closing_bracket = qualified_name.rfind(')');
-	if( closing_bracket != std::string::npos ) {
-		if( closing_bracket > 0 and qualified_name[closing_bracket - 1] == '(' ) {} // operator()
-		else return false;
-	}
+	if( is_unnamed_or_local(F) ) return false;
 
 	// friend functions and functions declared inside other functions could be named only if they are also declared in their namespace
 	if( !isa<CXXMethodDecl>(F) ) {
diff --git a/source/util.cpp b/source/util.cpp
index d88848d..a5efcae 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -303,6 +303,21 @@ string escape_string_literal(string text)
 }
 
 
+// check if declaration or one of the scopes in which it resides have no name (i.e. anonymous namespace, unnamed class, lambda), or if it is local to some function
+bool is_unnamed_or_local(NamedDecl const *decl)
+{
+	if( decl->getDeclName().isEmpty() ) return true;
+
+	for( auto context = decl->getDeclContext(); context; context = context->getParent() ) {
+		if( context->isFunctionOrMethod() ) return true;
+		if( auto named = dyn_cast<NamedDecl>(context) ) {
+			if( named->getDeclName().isEmpty() ) return true;
+		}
+	}
+	return false;
+}
+
+
 // generate C++ comment line for given declartion along with file path and line number: // core::scoring::vdwaals::VDWAtom file:core/scoring/vdwaals/VDWTrie.hh line:43
 string generate_comment_for_declaration(clang::NamedDecl const *decl)
 {
diff --git a/source/util.hpp b/source/util.hpp
index 79b124f..1bcb43d 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -85,6 +85,9 @@ std::string mangle_type_name(std::string const &name, bool mark_template = true)
 /// escape given text so it could be placed between quotes of C++ string literal
 std::string escape_string_literal(std::string text);
 
+/// check if declaration or one of the scopes in which it resides have no name (i.e. anonymous namespace, unnamed class, lambda), or if it is local to some function
+bool is_unnamed_or_local(clang::NamedDecl const *decl);
+
 /// generate C++ comment line for given declaration along with file path and line number
 // core::scoring::vdwaals::VDWAtom file:core/scoring/vdwaals/VDWTrie.hh line:43
 std::string generate_comment_for_declaration(clang::NamedDecl const *decl);
-- 
2.43.0


From a95de254d06bab2cefe096813c00bc9cada3f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:58 +0000
Subject: [PATCH 50/63] fix: pass module of enclosing namespace to custom
 binders of nested classes

---
 source/class.cpp | 2 +-
 source/util.cpp  | 8 ++++++++
 source/util.hpp  | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index c5d6b3c..fb7c713 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1153,7 +1153,7 @@ void ClassBinder::bind_with(string const &binder, Context &context)
 {
 	string c = '\t' + generate_comment_for_declaration(C);
 
-	string const module_variable_name = context.module_variable_name(namespace_from_named_decl(C));
+	string const module_variable_name = context.module_variable_name(enclosing_namespace(C));
 
 	c += '\t' + binder + standard_name(template_specialization(C)) + '(' + module_variable_name;
 
diff --git a/source/util.cpp b/source/util.cpp
index a5efcae..36fddd0 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -172,6 +172,14 @@ string namespace_from_named_decl(NamedDecl const *decl)
 }
 
 
+// return path (namespaces only) of the namespace in which given declaration or (for members of classes) its outermost class is declared
+string enclosing_namespace(NamedDecl const *decl)
+{
+	while( RecordDecl const *outer = dyn_cast<RecordDecl>(decl->getDeclContext()) ) decl = outer;
+	return namespace_from_named_decl(decl);
+}
+
+
 /// generate unique string representation of type represented by given declaration
 string typename_from_type_decl(TypeDecl const *decl)
 {
diff --git a/source/util.hpp b/source/util.hpp
index 1bcb43d..a24bb9d 100644
--- a/source/util.hpp
+++ b/source/util.hpp
@@ -56,6 +56,10 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 std::string namespace_from_named_decl(clang::NamedDecl const *decl);
 
 
+/// return path (namespaces only) of the namespace in which given declaration or (for members of classes) its outermost class is declared
+std::string enclosing_namespace(clang::NamedDecl const *decl);
+
+
 std::string typename_from_type_decl(clang::TypeDecl const *decl);
 
 
-- 
2.43.0


From e4aaaf58eb26aaf7ff66914dc5b2aacfd2b7a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:58 +0000
Subject: [PATCH 51/63] fix: apply module_local_namespace to classes and enums
 nested in classes of the namespace

---
 source/class.cpp | 2 +-
 source/enum.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index fb7c713..cd4261c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1473,7 +1473,7 @@ void ClassBinder::bind(Context &context)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(C)))
+	if (Config::get().is_module_local_requested(enclosing_namespace(C)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	// Add buffer protocol if requested
diff --git a/source/enum.cpp b/source/enum.cpp
index 257163a..c0e699a 100644
--- a/source/enum.cpp
+++ b/source/enum.cpp
@@ -126,7 +126,7 @@ std::string bind_enum(std::string const &module, EnumDecl const *E)
 
 	// Add module local if requested for the namespace
 	std::string module_local_annotation = "";
-	if (Config::get().is_module_local_requested(namespace_from_named_decl(E)))
+	if (Config::get().is_module_local_requested(enclosing_namespace(E)))
 		module_local_annotation = ", pybind11::module_local()";
 
 	string r = "\tpybind11::enum_<{}>({}, \"{}\"{}, \"{}\"{})\n"_format(qualified_name, module, name, maybe_arithmetic, generate_documentation_string_for_declaration(E), module_local_annotation);
-- 
2.43.0


From c226d1c4e55d0627505602d78de6da696e6e4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:20 +0000
Subject: [PATCH 52/63] fix: add includes for types referenced through typedefs
 of pointers and references

---
 source/type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/type.cpp b/source/type.cpp
index fdd6fd7..7129e95 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -379,8 +379,8 @@ void add_relevant_includes(QualType const &qt, /*const ASTContext &context,*/ In
 {
 	// QualType qt = qt.getDesugaredType(context);
 	// outs() << "add_relevant_includes(qt): " << qt.getAsString() << "\n";
-	if( clang::PointerType const *pt = dyn_cast<clang::PointerType>(qt.getTypePtr()) ) add_relevant_includes(pt->getPointeeType(), includes, level);
-	if( ReferenceType const *rt = dyn_cast<ReferenceType>(qt.getTypePtr()) ) add_relevant_includes(rt->getPointeeType(), includes, level);
+	if( clang::PointerType const *pt = qt->getAs<clang::PointerType>() ) add_relevant_includes(pt->getPointeeType(), includes, level);
+	if( ReferenceType const *rt = qt->getAs<ReferenceType>() ) add_relevant_includes(rt->getPointeeType(), includes, level);
 	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) add_relevant_includes(r, includes, level);
 	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, level);
 }
-- 
2.43.0


From 0b4ce703cd5c5f993081069af42c98bc02cc4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:20 +0000
Subject: [PATCH 53/63] fix: add includes for types in template parameter packs

---
 source/class.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index cd4261c..02d9c6a 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -430,6 +430,23 @@ bool is_skipping_requested(clang::CXXRecordDecl const *C, Config const &config)
 }
 
 
+// extract includes needed for template argument and add it to includes
+void add_relevant_includes(TemplateArgument const &ta, ASTContext const &ast_context, IncludeSet &includes, int level)
+{
+	if( ta.getKind() == TemplateArgument::Type ) { add_relevant_includes(ta.getAsType().getDesugaredType(ast_context), includes, level); }
+	if( ta.getKind() == TemplateArgument::Template ) { add_relevant_include_for_decl(ta.getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes); }
+
+	if( ta.getKind() == TemplateArgument::Declaration ) {
+		ValueDecl *v = ta.getAsDecl();
+		add_relevant_include_for_decl(v, includes);
+	}
+	if( ta.getKind() == TemplateArgument::Integral ) { add_relevant_includes(ta.getIntegralType(), includes, level); }
+	if( ta.getKind() == TemplateArgument::Pack ) {
+		for( auto const &a : ta.pack_elements() ) add_relevant_includes(a, ast_context, includes, level);
+	}
+}
+
+
 // extract include needed for declaration and add it to includes
 void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes, int level)
 {
@@ -438,19 +455,7 @@ void add_relevant_includes(clang::CXXRecordDecl const *C, IncludeSet &includes,
 	add_relevant_include_for_decl(C, includes);
 
 	if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
-
-		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) {
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Type ) { add_relevant_includes(t->getTemplateArgs()[i].getAsType().getDesugaredType(C->getASTContext()), includes, level + 1); }
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Template ) {
-				add_relevant_include_for_decl(t->getTemplateArgs()[i].getAsTemplate().getAsTemplateDecl()->getTemplatedDecl(), includes);
-			}
-
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Declaration ) {
-				ValueDecl *v = t->getTemplateArgs()[i].getAsDecl();
-				add_relevant_include_for_decl(v, includes);
-			}
-			if( t->getTemplateArgs()[i].getKind() == TemplateArgument::Integral ) { add_relevant_includes(t->getTemplateArgs()[i].getIntegralType(), includes, level + 1); }
-		}
+		for( uint i = 0; i < t->getTemplateArgs().size(); ++i ) add_relevant_includes(t->getTemplateArgs()[i], C->getASTContext(), includes, level + 1);
 	}
 
 	// member function templates: we have to treat them separatly because instantiation types might not be included in class header
-- 
2.43.0


From e95a887e78012704ef53815787700927f04b59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:21 +0000
Subject: [PATCH 54/63] fix: add includes for members lifted by
 using-declarations, smart pointer data members and members of the bases of
 template classes

---
 source/class.cpp | 69 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 02d9c6a..5cb7c2f 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -646,6 +646,74 @@ void ClassBinder::request_bindings_and_skipping(Config const & config, RequestFl
 }
 
 
+// extract includes needed for types that are converted together with value of the given type: conversion of smart pointers, pairs and tuples require definitions of the types they refer to
+static void add_relevant_includes_for_value(QualType const &qt, IncludeSet &includes)
+{
+	if( CXXRecordDecl *r = qt->getAsCXXRecordDecl() ) {
+		if( !r->isInStdNamespace() and !is_python_builtin(r) ) add_relevant_includes(r, includes, 1);
+		else if( is_python_builtin(r) ) {
+			if( auto t = dyn_cast<ClassTemplateSpecializationDecl>(r) ) {
+				for( auto const &a : t->getTemplateArgs().asArray() ) {
+					if( a.getKind() == TemplateArgument::Type ) add_relevant_includes_for_value(a.getAsType(), includes);
+					if( a.getKind() == TemplateArgument::Pack ) {
+						for( auto const &e : a.pack_elements() ) {
+							if( e.getKind() == TemplateArgument::Type ) add_relevant_includes_for_value(e.getAsType(), includes);
+						}
+					}
+				}
+			}
+		}
+	}
+	if( EnumDecl *e = dyn_cast_or_null<EnumDecl>(qt->getAsTagDecl()) ) add_relevant_includes(e, includes, 1);
+}
+
+
+// extract includes needed to access given data member
+static void add_relevant_includes_for_field(FieldDecl const *f, IncludeSet &includes)
+{
+	if( CXXRecordDecl *r = f->getType()->getAsCXXRecordDecl() ) {
+		if( f->isAnonymousStructOrUnion() ) {
+			for( auto n : r->fields() ) add_relevant_includes_for_field(n, includes);
+		}
+		else if( is_python_builtin(r) ) add_relevant_includes_for_value(f->getType(), includes);
+	}
+}
+
+
+// extract includes needed for members that are bound as part of the class but not handled by `add_relevant_includes`: members lifted by using-declaration, data members and members of the bases of template classes
+static void add_relevant_includes_for_members(CXXRecordDecl const *C, IncludeSet &includes)
+{
+	for( auto d : C->decls() ) {
+		if( UsingDecl *u = dyn_cast<UsingDecl>(d) ) {
+			if( u->getAccess() == AS_public ) {
+				for( auto s : u->shadows() ) {
+					if( CXXMethodDecl *m = dyn_cast<CXXMethodDecl>(s->getTargetDecl()) ) {
+						if( is_bindable(m) and !isa<CXXDestructorDecl>(m) ) add_relevant_includes(m, includes, 1);
+					}
+					if( FieldDecl *f = dyn_cast<FieldDecl>(s->getTargetDecl()) ) add_relevant_includes_for_field(f, includes);
+				}
+			}
+		}
+		if( FieldDecl *f = dyn_cast<FieldDecl>(d) ) {
+			if( f->getAccess() == AS_public ) add_relevant_includes_for_field(f, includes);
+		}
+	}
+
+	if( dyn_cast<ClassTemplateSpecializationDecl>(C) ) {
+		for( auto const &b : C->bases() ) {
+			if( b.getAccessSpecifier() == AS_public ) {
+				if( CXXRecordDecl *R = b.getType()->getAsCXXRecordDecl() ) {
+					if( !R->isInStdNamespace() ) {
+						add_relevant_includes(R, includes, 0);
+						add_relevant_includes_for_members(R, includes);
+					}
+				}
+			}
+		}
+	}
+}
+
+
 /// extract include needed for this generator and add it to includes vector
 void ClassBinder::add_relevant_includes(IncludeSet &includes) const
 {
@@ -661,6 +729,7 @@ void ClassBinder::add_relevant_includes(IncludeSet &includes) const
 
 	for( auto &m : prefix_includes_ ) binder::add_relevant_includes(m, includes, 0);
 	binder::add_relevant_includes(C, includes, 0);
+	add_relevant_includes_for_members(C, includes);
 
 	includes.add_include("<sstream> // __str__");
 }
-- 
2.43.0


From 401c67018a723525f137fe55bb0dc9265c2c6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:36 +0000
Subject: [PATCH 55/63] fix: treat std::basic_string_view as Python builtin,
 Pybind11 converts it to Python str

---
 source/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/type.cpp b/source/type.cpp
index 7129e95..52ed9c3 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -700,7 +700,7 @@ bool is_python_builtin(NamedDecl const *C)
 
 	static std::set<string> const known_builtin = {
 		//"std::nullptr_t", "nullptr_t",
-		"std::basic_string", "std::initializer_list", "std::__1::basic_string",
+		"std::basic_string", "std::basic_string_view", "std::initializer_list", "std::__1::basic_string",
 
 		"std::allocator", "std::__allocator_destructor",
 
-- 
2.43.0


From 8db133de3dc4ed7e949c3dc38e10ce69c7d89107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:48 +0000
Subject: [PATCH 56/63] fix: include <filesystem> instead of its internal
 headers

---
 source/type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/type.cpp b/source/type.cpp
index 52ed9c3..7330c02 100644
--- a/source/type.cpp
+++ b/source/type.cpp
@@ -288,6 +288,11 @@ void add_relevant_include_for_decl(NamedDecl const *decl, IncludeSet &includes /
 
 		make_pair("<bits/forward_list.h>", "<forward_list>"),
 
+		make_pair("<bits/fs_path.h>", "<filesystem>"),
+		make_pair("<bits/fs_fwd.h>", "<filesystem>"),
+		make_pair("<bits/fs_dir.h>", "<filesystem>"),
+		make_pair("<bits/fs_ops.h>", "<filesystem>"),
+
 		make_pair("<bits/stl_heap.h>", "<algorithm>"),
 
 		make_pair("<bits/types/__mbstate_t.h>", "<ios>"),
-- 
2.43.0


From bbbd755f9fcd86ea12d990d226c11efedd5baa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:08 +0000
Subject: [PATCH 57/63] fix: pass actual call-back structure to custom
 trampoline functions of inherited member functions

---
 source/class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5cb7c2f..feaa9f0 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -945,7 +945,7 @@ if (overload) {{
 
 
 // generate call-back overloads for all public virtual functions in C including it bases
-string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, /*string const & base_type_alias,*/ set<CXXMethodDecl const *> const &overriders, set<string> &binded, int &ret_id,
+string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const &class_name, string const &callback_name, /*string const & base_type_alias,*/ set<CXXMethodDecl const *> const &overriders, set<string> &binded, int &ret_id,
 										   std::vector<clang::FunctionDecl const *> &prefix_includes_ /*, std::set<clang::NamedDecl const *> &prefix_includes_stack*/)
 {
 	string c;
@@ -1023,7 +1023,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 				}
 				else {
 					string input_args = std::get<1>(args);
-					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_structure_name(C), class_name, m->getNameAsString());
+					c += "\n\t\treturn {}<{},{}>(this, \"{}\", \"{}\""_format(custom_function_info, C->getNameAsString(), callback_name, class_name, m->getNameAsString());
 					if ( input_args.length() > 0 )
 						c += ", {}"_format(std::get<1>(args));
 					c += ");\n";
@@ -1053,7 +1053,7 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
 				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
 					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
-					c += bind_member_functions_for_call_back(R, class_name, /*base_type_alias,*/ overriders, binded, ret_id, prefix_includes_);
+					c += bind_member_functions_for_call_back(R, class_name, callback_name, /*base_type_alias,*/ overriders, binded, ret_id, prefix_includes_);
 				}
 			}
 		}
@@ -1075,7 +1075,7 @@ void ClassBinder::generate_prefix_code()
 
 	set<string> binded;
 	int ret_id = 0;
-	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), /*base_type_alias,*/ final_overriders(C), binded, ret_id, prefix_includes_);
+	prefix_code_ += bind_member_functions_for_call_back(C, class_qualified_name(C), callback_structure_name(C), /*base_type_alias,*/ final_overriders(C), binded, ret_id, prefix_includes_);
 	prefix_code_ += "};\n\n";
 }
 
-- 
2.43.0


From 1bcab06a7128b4935c6ebb4cc083e8d2a08480a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:15 +0000
Subject: [PATCH 58/63] fix: accept tabs and repeated spaces between the parts
 of a config line

Config::read took only single spaces as separators: a line with a tab or with
a second space after the token was silently read as a directive for a
non-existing object (or rejected), and trailing white space became part of
the include or function name.
---
 source/config.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index bfdb2e4..b3428f0 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -37,7 +37,7 @@ std::pair<string, string> split_in_two(string const &s, string const &error_stri
 	size_t split = std::min(space, tab);
 
 	if( split == string::npos ) throw std::runtime_error(error_string);
-	else return std::make_pair(s.substr(0, split), s.substr(split + 1));
+	else return std::make_pair(s.substr(0, split), trim(s.substr(split + 1)));
 }
 
 
@@ -110,15 +110,15 @@ void Config::read(string const &file_name)
 		}
 
 		if( line[0] != '+' and line[0] != '-' ) throw std::runtime_error("Invalid token at the begining of line in config file! Each line should begin with ether '+' or '-' or '#'! Line: " + line);
-		size_t space = line.find(' ');
+		size_t space = line.find_first_of(" \t");
 		if( space == string::npos )
 			throw std::runtime_error("Invalid line in config file! Each line must have token separated with space from object name. For example: '+function aaa::bb::my_function'. Line: " + line);
 
 		bool bind = line[0] == '+' ? true : false;
 		string token = line.substr(1, space - 1);
-		string name = line.substr(space + 1);
+		string name = trim(line.substr(space + 1));
 		string name_without_spaces = name;
-		name_without_spaces.erase(std::remove(name_without_spaces.begin(), name_without_spaces.end(), ' '), name_without_spaces.end());
+		name_without_spaces.erase(std::remove_if(name_without_spaces.begin(), name_without_spaces.end(), [](char c) { return c == ' ' or c == '\t'; }), name_without_spaces.end());
 
 		// outs() << token << " " << name << "\n";
 
-- 
2.43.0


From 0b04d0f615f5b191f087f2fe972ca0c9e0af6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:48 +0000
Subject: [PATCH 59/63] fix: skip functions that return pointers to smart
 pointers

Pybind11 can not return std::shared_ptr<T>* (or pass it to a Python override),
so generated code for std::vector< std::shared_ptr<T> >, whose data() returns
such pointer, did not compile.
---
 source/function.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/function.cpp b/source/function.cpp
index 2e27cef..bf93115 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -498,6 +498,17 @@ string FunctionBinder::id() const
 }
 
 
+/// check if type is a pointer to std::shared_ptr or to custom smart pointer that Pybind11 uses as holder
+static bool is_pointer_to_holder(QualType const &qt)
+{
+	if( !qt->isPointerType() ) return false;
+	CXXRecordDecl *C = qt->getPointeeType()->getAsCXXRecordDecl();
+	if( !C ) return false;
+	string name = C->getQualifiedNameAsString();
+	return name == "std::shared_ptr" or name == Config::get().holder_type();
+}
+
+
 /// check if generator can create binding
 bool is_bindable_raw(FunctionDecl const *F)
 {
@@ -539,6 +550,8 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	if( rt->isFunctionReferenceType() ) return false; // refuse to bind functions that return 'R (&)(A...)'
 
+	if( is_pointer_to_holder(rt) ) return false; // pybind11 can't return pointers to smart pointers that hold its classes
+
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) { // pybind11 can't return 'T *&' from Python override, but it can return 'T * const &'
 		if( m->isVirtual() and rt->isLValueReferenceType() and rt->getPointeeType()->isPointerType() and !rt->getPointeeType().isConstQualified() ) return false;
 	}
@@ -549,6 +562,10 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 		// pybind11 can't pass 'T *&' arguments, but it can pass 'T * const &'
 		if( pt->isLValueReferenceType() and pt->getPointeeType()->isPointerType() and !pt->getPointeeType().isConstQualified() ) return false;
+
+		if( auto m = dyn_cast<CXXMethodDecl>(F) ) { // ...and it can't pass such pointers to Python override
+			if( m->isVirtual() and is_pointer_to_holder(pt) ) return false;
+		}
 	}
 	// outs() << "is_bindable: " << F->getQualifiedNameAsString() << " " << r << "\n";
 
-- 
2.43.0


From a4a4689f1bc607f302571724c706972575b2b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:23 +0000
Subject: [PATCH 60/63] fix: give vectors with other allocators names of their
 own

---
 source/stl_binders.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/stl_binders.hpp b/source/stl_binders.hpp
index 3cd28f3..f88773b 100644
--- a/source/stl_binders.hpp
+++ b/source/stl_binders.hpp
@@ -28,13 +28,15 @@ template <typename T, class Allocator> class vector_binder
 
 
 public:
-	vector_binder(pybind11::module &m, std::string const &name, std::string const & /*allocator name*/)
+	vector_binder(pybind11::module &m, std::string const &name, std::string const &allocator_name)
 	{
 		using Vector = std::vector<T, Allocator>;
 		using holder_type = std::shared_ptr<std::vector<T, Allocator>>;
 		using Class_ = pybind11::class_<Vector, holder_type>;
 
-		Class_ cl = pybind11::bind_vector<Vector, holder_type>(m, "vector_" + name);
+		std::string maybe_extra = std::is_same<Allocator, std::allocator<T>>::value ? "" : ("_" + allocator_name);
+
+		Class_ cl = pybind11::bind_vector<Vector, holder_type>(m, "vector_" + name + maybe_extra);
 
 		// cl.def(pybind11::init<size_type>());
 		// cl.def("resize", (void (Vector::*) (size_type count)) & Vector::resize, "changes the number of elements stored");
-- 
2.43.0


From fa4ad97fdd50ec684b39a5ca6953aad2efc821fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 61/63] fix: documentation generator: name of root module when
 the path of its directory ends with a slash

---
 sphinx-doc-generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sphinx-doc-generator.py b/sphinx-doc-generator.py
index 01a9d06..68ee45a 100644
--- a/sphinx-doc-generator.py
+++ b/sphinx-doc-generator.py
@@ -144,7 +144,7 @@ def main(args):
 
     Options = parser.parse_args()
 
-    if Options.root is None: Options.root = os.path.basename(Options.module_file).split('.')[0]
+    if Options.root is None: Options.root = os.path.basename( os.path.abspath(Options.module_file) ).split('.')[0]
 
     output_dir = os.path.abspath(Options.output)
     if not os.path.isdir(output_dir): os.makedirs(output_dir)
-- 
2.43.0


From 68e003686e0e97202aa875f2dde59a29ef0da225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:38 +0000
Subject: [PATCH 62/63] fix: documentation generator: honour --depth 0, and
 --depth for directories

---
 sphinx-doc-generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphinx-doc-generator.py b/sphinx-doc-generator.py
index 68ee45a..e10d860 100644
--- a/sphinx-doc-generator.py
+++ b/sphinx-doc-generator.py
@@ -153,7 +153,9 @@ def main(args):
         print( '{Options.module_file} is a directory... treating it as root to Python module and collecting sub-modules info...'.format(**vars()) )
         modules = collect_python_modules(Options.module_file, name=Options.root)
     else:
-        with open(Options.module_file) as f: modules = [Options.root] + [Options.root + '.' + m for m in f.read().split() if ( m.count('.') < Options.depth if Options.depth else True) ]
+        with open(Options.module_file) as f: modules = [Options.root] + [Options.root + '.' + m for m in f.read().split()]
+
+    if Options.depth is not None: modules = [m for m in modules if m[len(Options.root):].count('.') <= Options.depth]
 
     modules.sort()
     generate_rst_sphinx_files(modules, Options.output, Options.javascript_web_path)
-- 
2.43.0


From 4f411631fddaf79c8f79c897171d3ca2f1cf72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:17 +0000
Subject: [PATCH 63/63] fix: skip volatile member functions

---
 source/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/function.cpp b/source/function.cpp
index bf93115..d59ff3f 100644
--- a/source/function.cpp
+++ b/source/function.cpp
@@ -540,6 +540,7 @@ bool is_bindable_raw(FunctionDecl const *F)
 
 	if( auto m = dyn_cast<CXXMethodDecl>(F) ) {
 		if( m->getRefQualifier() == RQ_RValue ) return false; // could not be called on an lvalue
+		if( m->isVolatile() ) return false; // pointers to volatile member functions are not supported by pybind11
 	}
 
 	r &= F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate /*and  !F->isOverloadedOperator()*/ and !isa<CXXConversionDecl>(F) and !F->isDeleted();
-- 
2.43.0

