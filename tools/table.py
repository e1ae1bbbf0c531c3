REAL = "Exhaustive within the stated bounds on the real binder executable, built from the working tree; the oracle is an independent reference model. Trusts clang's parser, the token-level reader of the generated C++ (lib/vf/parse.py), the bounds."
TECH = "bounded exhaustive enumeration on the real code against a reference model"

prop("C01", "Namespace rules: the longest matching +/-namespace rule decides",
     "For every set of namespace rules, an entity (class, function, enum, template instance) that no more specific directive names is bound exactly if the longest rule naming its namespace or one enclosing it is a bind rule; a rule for `a` applies to `a` and `a::…` but never to a namespace that merely starts with the same characters, and a rule for the empty name applies to the global namespace and everything in it. The order of the rules, and whether they arrive by command line or config file, make no difference, and a namespace that is both bound and skipped at the same level is rejected. Entities in anonymous namespaces are never bound.",
     ["configurations", "programs"], "all assignments of bind/skip/none to the namespaces of a forest, all ways of delivering them, every entity kind in every namespace",
     "the tests use one rule each, over disjoint namespace names; the guarantee is over every combination of nested and look-alike names",
     ["source/config.cpp", "source/options.cpp", "source/main.cpp", "source/enum.cpp"],
     [("longest-match decision", "source/config.cpp is_namespace_binding_requested/is_namespace_skipping_requested"), ("reading the rules", "source/config.cpp Config::read, source/main.cpp main")], TECH, REAL)

prop("C02", "Per-entity directives decide exactly the named entity",
     "For every combination of +/-class, +/-function (by name or by full signature), +/-enum, -field and +/-python_builtin directives, the registered entities are exactly those the documentation promises: a directive for an entity overrides its namespace's rule, a full signature or full template specialization overrides the plain name, an excluded entity is never registered, and members of an explicitly requested class are registered unless excluded themselves. A directive changes only what it names, and the order of the lines makes no difference (for the same name, excluding wins).",
     ["configurations", "programs"], "all assignments of directives to the sites of small programs with overloads, methods, constructors, fields, nested classes, templates, enums, built-ins",
     "each test fixes one directive set; interactions between directives, overloads, nesting and templates are never enumerated",
     ["source/config.cpp", "source/class.cpp", "source/function.cpp", "source/enum.cpp", "source/type.cpp"],
     [("request/skip decisions", "source/class.cpp, source/function.cpp, source/enum.cpp is_binding_requested/is_skipping_requested"), ("member filters", "source/class.cpp binding_public_member_functions, bind_nested_classes, is_field_skipping_requested")], TECH, REAL)

prop("C03", "Everything a bound signature or base clause needs is bound too, and only that",
     "Starting from what was asked for, every class or enum that a bound function, method or constructor takes or returns (by value, pointer, reference, through typedefs), and every public base class, is registered too, transitively, whatever the length of the chain, cycles, and order of declaration. What a directive excludes, and what is only reachable through it, is not registered, and neither is anything nobody refers to.",
     ["programs", "configurations"], "all chains and graphs of references up to the bounds, every kind of reference, one exclusion at every place",
     "tests hold a few fixed reference chains; the least fixpoint is a statement about all of them",
     ["source/type.cpp", "source/context.cpp", "source/class.cpp", "source/function.cpp"],
     [("requests for bindings", "source/type.cpp request_bindings, source/context.cpp Context::request_bindings"), ("fixpoint", "source/context.cpp Context::bind")], TECH, REAL)

prop("C04", "Base classes are registered first, with exactly the public bindable bases",
     "For every inheritance graph over plain, template and nested classes, and every file layout, each class is registered exactly once, after every base class it names, and names exactly its public bindable bases; so importing the generated module never fails for a base that is not yet registered. A base that is private, protected, excluded or not bindable is left out, and the derived class is still registered.",
     ["programs", "configurations"], "all inheritance graphs up to the bound x layouts, with compiled and imported samples of every kind of base",
     "tests sample a few graphs with benign declaration order; the order must be right for every graph and layout",
     ["source/context.cpp", "source/class.cpp"],
     [("topological order", "source/context.cpp Context::sort_binders"), ("base list", "source/class.cpp ClassBinder::maybe_base_classes")], TECH, REAL + " Selected modules are compiled with the real pybind11 and imported.")

prop("C05", "Every layout registers every selected entity exactly once",
     "For every interleaving of declarations over namespaces and headers, and every layout option (--single-file, --flat, --max-file-size), the module registers every selected entity exactly once and into the submodule of its namespace, in an order independent of the layout; every submodule needed is created after its parent, every binding function is defined once, declared and called once, generated names never collide, and the .sources and .modules lists name exactly the files and modules written.",
     ["programs", "configurations"], "all interleavings of declarations over namespaces and headers with colliding names x all layouts",
     "tests check one layout of one program each; splitting and naming must hold for every program and limit",
     ["source/context.cpp", "source/options.cpp"],
     [("splitting into files", "source/context.cpp Context::generate"), ("names of files and functions", "source/context.cpp file_name_prefix_for_binder"), ("submodules", "source/context.cpp Context::create_all_nested_namespaces")], TECH, REAL)

prop("C06", "Regeneration: success means a complete, exact output; fresh files stay untouched",
     "Whenever binder exits with status 0, every output file has exactly the content a run into an empty directory would give, whatever the directory held before: older output, damaged or truncated files, or what a run left that was killed or whose writes failed at any point. Source files that are already up to date are not rewritten (their time stamp stays), and files that are not part of the output are left alone. A run that could not write some output file never exits with status 0.",
     ["crash_points", "fault_sequences", "histories"], "all histories of generations up to depth 3, all enumerated damages of every file, every file-system operation of a run failing, torn, or being its last, and recovery from every state so reached",
     "the tests only ever generate into an empty directory, with no fault",
     ["source/util.cpp", "source/context.cpp"],
     [("compare-then-write", "source/util.cpp update_source_file"), ("lists and root module", "source/context.cpp Context::generate")],
     "exhaustive fault and crash-point enumeration on the real executable with explicit-state search over directory contents",
     "Every file-system operation of a run is failed, torn or made its last by an LD_PRELOAD injector; states are directory contents. Trusts the injector's list of intercepted operations; writes are taken to reach the disk in order.", level="fault_enumeration",
     observe=["exit status", "directory content and time stamps"])

prop("C07", "Python overrides virtual functions exactly as C++ would",
     "For every class that can be derived from, an instance made from Python dispatches every overridable virtual function that is in effect in the class — public or protected, declared there or inherited through non-private bases — to the Python override when the Python class (or a Python base) defines one, passing arguments and result through, and otherwise to the very implementation a C++ object of that class would run; a pure function nobody implements raises. `final`, private, excluded and unbindable functions are never overridden and never bypassed, and an abstract class whose pure functions cannot all be implemented from Python gets no constructor.",
     ["programs"], "all hierarchies up to three levels, two bases and diamonds over kind, access, const-ness, final, exclusion; every shape compiled and driven from Python",
     "tests compare the text of a few call-back structures and never run them",
     ["source/class.cpp"],
     [("call-back structures", "source/class.cpp ClassBinder::bind_/prefix code, bind_member_functions_for_call_back"), ("eligibility", "source/class.cpp is_callback_structure_needed, is_callback_structure_constructible")], TECH, REAL + " Compiled hierarchies are driven from Python through C++ calls.")

prop("C08", "Every call C++ allows can be made from Python, and reaches the same function",
     "Every bound function, method, static method and constructor (including function and class templates, variadic functions, inherited constructors, and classes with call-back structures) can be called with every number of arguments that the default arguments of its first declaration allow in C++, and with no other number. The arguments given are passed on in order to that same C++ function, the omitted ones take their C++ default, each parameter is also known by its C++ name as a keyword, and the result has the declared type.",
     ["programs"], "all functions over kind of function x parameter types x number of defaults x names, compiled and called by position, by keyword and mixed with every number of arguments",
     "tests hold a few signatures and only compare generated text",
     ["source/function.cpp", "source/class.cpp", "source/type.cpp"],
     [("one registration per number of arguments", "source/function.cpp ArgumentBinder, bind_function"), ("constructors", "source/class.cpp bind_constructor")], TECH, REAL + " Compiled modules are called from Python.")

prop("C09", "Operators and printing: documented Python names, exactly the right classes",
     "Every public, not deleted member operator of a bound class that the documented table maps (unary and binary forms told apart by the number of parameters) is registered under its Python name and calls that operator; operators without a Python name, conversion operators and non-member operators are never registered, as methods or as functions. `__str__` is registered for exactly those bound classes (struct, class, union, instance of a class template with type parameters) that a non-member `std::ostream & operator<<(std::ostream &, T const &)` of the program prints — in the class's own, an enclosing or another namespace, as a friend, or as a template — and prints with that operator, never with one of another class of the same name, unless `-function T::__str__` excludes it.",
     ["programs", "configurations"], "all C++ operators x forms; all placements and forms of insertion operators x class kinds x look-alike classes",
     "tests hold one or two operators and one insertion operator each",
     ["source/function.cpp", "source/class.cpp", "source/context.cpp"],
     [("operator table", "source/function.cpp cpp_python_operator, python_operator tables"), ("insertion operators", "source/context.cpp Context::add_insertion_operator, global_insertion_operator; source/class.cpp bind_repr")], TECH, REAL + " Operators and str() are used from Python on compiled modules.")

prop("C10", "Exactly the functions C++ code could call are exposed, each with its own target",
     "Every function and member function that C++ code outside could call by name and whose signature can be expressed is exposed under its name, and every overload of it reaches that very C++ function: static and other members, const or lvalue-qualified, noexcept, constexpr, with deduced return type, inherited, of nested classes, of class template instances and their bases, lifted by a public using-declaration, and every instance of a function template that the program uses. Of a const/non-const pair the non-const one is used, unless it cannot be bound or is excluded. Never exposed are private, protected, deleted and rvalue-qualified functions, templates without instance, functions declared only as friend or only inside a function, functions of anonymous namespaces, literal operators, and — also when the type is named through typedefs or aliases — functions that take or return pointers to pointers, arrays, function or member pointers, rvalue references, incomplete or un-nameable classes or enums, non-const references or pointers to std::pair or std::tuple, or take a non-const reference to a pointer; such a function is left out alone, without its overloads, and the generated code compiles.",
     ["programs"], "all kinds of functions x places, all types x roles x ways of naming them, each compiled and called from Python",
     "tests hold a few functions and compare generated text",
     ["source/function.cpp", "source/class.cpp", "source/type.cpp", "source/main.cpp"],
     [("which functions", "source/function.cpp is_bindable, source/main.cpp VisitFunctionDecl, source/class.cpp binding_public_member_functions, is_const_overload"), ("which types", "source/type.cpp is_bindable"), ("target", "source/function.cpp function_pointer_type, bind_function")], TECH, REAL + " Every function is compiled and called from Python; signatures are checked for presence.")

prop("C11", "Python can construct a class exactly as C++ code outside it could",
     "A bound class can be constructed from Python exactly through those of its constructors that C++ code outside the class can call: declared public constructors that are neither deleted nor templates, the implicit default constructor exactly when the class has a usable one (whatever its bases, data members, references, constants and anonymous unions), and constructors inherited through a public using-declaration; each runs that very constructor. Private, protected, deleted and move constructors are never offered, nor any constructor of a class whose destructor is not public; an abstract class offers one only when a class derived from it in Python could be created and destroyed. A declared public copy constructor is offered, and none is where C++ has none. The generated code always compiles.",
     ["programs"], "all classes over declared constructors x access x deletion x destructor x members x bases x virtual functions up to the bounds, every one compiled and constructed from Python with every argument list",
     "tests hold a few constructors and compare generated text; whether an implicit constructor exists depends on the whole class hierarchy",
     ["source/class.cpp"],
     [("which constructors", "source/class.cpp ClassBinder::bind, is_bindable, is_default_default_constructor_available, bind_copy_constructor"), ("inherited constructors", "source/class.cpp, binding of UsingShadowDecl"), ("call-back structures", "source/class.cpp is_callback_structure_constructible")], TECH, REAL + " Compiled classes are constructed from Python; the expected set comes from std::is_constructible-style reasoning in the reference model, cross-checked with the compiler.")

prop("C12", "Public data members are attributes that read and write exactly that member",
     "Every public non-static data member of a bound class — of nested classes, template instances and their bases, of anonymous structures and unions however nested, inherited, or lifted to public by a using-declaration — is an attribute of the same name; reading it gives, and assigning sets, exactly that member of that object. It is assignable exactly if the member is not const and its type is copy-assignable in C++, also when the type is named by typedefs. Pointers, references, arrays, bit-fields, static members, members of types that cannot be named, private and protected members, and members excluded by `-field` are not attributes; an exclusion removes only the named member. The generated code always compiles.",
     ["programs", "configurations"], "all members over type x qualifiers x typedefs x access x nesting x kind of class x lifting x exclusion, every one compiled, read and assigned from Python and watched from C++",
     "tests hold a few fields and compare generated text",
     ["source/class.cpp", "source/config.cpp", "source/type.cpp"],
     [("which members", "source/class.cpp is_bindable(FieldDecl), ClassBinder::bind, binding_public_data_members"), ("read-only or not", "source/class.cpp bind_data_member, is_const/assignable tests")], TECH, REAL + " Compiled modules are read and written from Python and observed from C++.")

prop("C13", "Enumerations: every enumerator, with its C++ value, in the scope C++ gives it",
     "Every public named enumeration that is selected — `enum`, `enum class`, `enum struct`, of any underlying type, in namespaces, classes, unions, nested classes and class template instances, also when declared without enumerators before or after its definition or defined outside its class — is registered once, with exactly its enumerators, in order, each with the value C++ gives it (aliases, negative and extreme values included). Enumerators of unscoped enumerations are also names of the enclosing scope and compare with and act as integers; those of scoped ones are neither. Values pass to and from C++ unchanged, and another enumeration's value is never accepted. Private, protected, local, unnamed, anonymous-namespace and excluded enumerations, and their enumerators, are not exposed.",
     ["programs", "configurations"], "all enumerations over kind x underlying type x list of enumerators x place x form of declaration within the bounds, compiled and used from Python",
     "tests hold a few enumerations and compare generated text",
     ["source/enum.cpp", "source/class.cpp"],
     [("which enumerations", "source/enum.cpp is_bindable, source/main.cpp VisitEnumDecl, source/class.cpp ClassBinder::bind"), ("enumerators", "source/enum.cpp bind_enum")], TECH, REAL + " Values are compared with what C++ code itself prints.")

prop("C14", "Documentation reaches Python unchanged; presentation options change nothing else",
     "The text of the documentation comment in front of a class, nested class, enumeration, function, member function or operator (any of the forms `///`, `//!`, `/** */`, `/*! */`, of any length, with any punctuation, quotes, backslashes, braces or non-ASCII text; Doxygen commands and HTML apart) is, up to white space, the doc string of exactly that entity in Python — for overloads of exactly that overload, and for default arguments of the form with all parameters. An entity without such a comment gets no text from a neighbour, its class, its base or an ordinary comment. The options --annotate-includes, --annotate-functions, --trace, -v and --skip-line-number, in any combination, change comments, trace output and messages only: the registrations, and the files they are in, stay the same, and the code compiles. --suppress-errors leaves the output for correct input as it is, and with it errors that clang finds in code which is not bound make neither the run fail nor anything else in the output change.",
     ["programs", "configurations"], "entities x comment styles x texts, every pair of punctuation characters; all 64 subsets of the options on every program",
     "tests hold a few comments and one or two options, each alone",
     ["source/util.cpp", "source/context.cpp", "source/function.cpp", "source/class.cpp", "source/enum.cpp"],
     [("doc strings", "source/util.cpp generate_documentation_string_for_declaration, get_text"), ("trace", "source/context.cpp trace_line"), ("annotations", "source/function.cpp bind_function, source/class.cpp bind_constructor, source/type.cpp add_relevant_include_for_decl")], TECH, REAL + " Doc strings are read from the imported module.")

prop("C15", "Each instance of a class template is one Python class that is that C++ class",
     "Every instance of a class template that the program uses in a bound signature, as a base, or instantiates explicitly is exposed as exactly one Python class, named after the template and its arguments (`T_int_t`, `*` and `&` spelled `_star_` and `_ref_`, default arguments included); different instances are different classes and are not accepted for each other. This holds for every kind of argument — types of any shape (pointers, references, arrays, functions, qualified, nested, other instances, library types), values (negative numbers, characters of any kind, booleans, enumerators, addresses), packs (empty ones too), templates and defaults — and for templates with virtual functions, bases, nested types, constructors, operators, member templates and specialisations: members are all there, objects pass to and from C++, virtual functions can be overridden, and the generated code compiles.",
     ["programs"], "all template arguments of the grammar x kinds of template x uses; families of instances side by side",
     "tests hold a handful of template arguments and compare generated text",
     ["source/class.cpp", "source/type.cpp", "source/util.cpp", "source/main.cpp"],
     [("spelling", "source/class.cpp template_specialization, class_qualified_name; source/util.cpp template_argument_to_string"), ("Python names", "source/util.cpp mangle_type_name, source/class.cpp python_class_name, callback_structure_name"), ("which instances", "source/class.cpp is_bindable_raw, source/main.cpp")], TECH, REAL + " Compiled modules are used from Python. Names that collide by the documented mangling (a::b and a_b as arguments) are outside the explored space.")

prop("C16", "Custom binders: one call per entity, at the right time, with the right arguments",
     "`+binder T f` replaces the generated code of class `T` (for a class template: of every instance in use) by exactly one call of `f`, with the module of the namespace that encloses the class and, for instances, the template arguments as types and their Python names as strings; `+add_on_binder T f` keeps the generated code and calls `f` once with the class object, after all its own members were registered. `+binder_for_namespace N f` replaces everything that would be registered in namespace `N` itself (not in the namespaces inside it) by one call, `+add_on_binder_for_namespace N f` adds one call before anything of the namespace is registered; both get that namespace's module, are called only for namespaces something of which is bound, once however often the namespace is opened or spread over files, and the replacement wins where both are given. All other classes, functions and namespaces are as without the directive, and the module compiles and imports in every layout of files.",
     ["programs", "configurations"], "kinds of class x directive x layout; all assignments of directives to nested, mutually dependent namespaces",
     "tests hold one example per directive and compare text; none combines directives or observes when and with what the function is called",
     ["source/class.cpp", "source/context.cpp", "source/config.cpp", "source/util.cpp"],
     [("class binders", "source/class.cpp ClassBinder::bind, bind_with_custom_binder"), ("namespace binders", "source/context.cpp Context::generate, bind_namespaces"), ("lookup", "source/config.cpp binders, binder_for_namespace")], TECH, REAL + " The custom functions record their calls in the imported module.")

prop("C17", "Every file includes what it uses; include directives do exactly what they say",
     "Every generated source file compiles on its own (after the usual pybind11 headers), whatever bound entities refer to: for each way a type can be needed — by value, reference, pointer, through typedefs, as template argument, in packs, as base, as member, in default arguments, in inherited, lifted and template members — the header that defines the type is included even if the using header only declares it; library types come from their public headers. `+include` lines are added to every binding file in the order given, `-include` removes exactly that header, `+include_for_class` adds its header to exactly the files that register the class (any instance, for templates) and `+include_for_namespace` to exactly those that hold something of that namespace; none of them changes anything else.",
     ["programs", "configurations"], "role x kind of type x arrangement of headers, all listed library types, all subsets of include directives x layouts",
     "tests include complete headers in one translation unit, where a missing include does not show",
     ["source/type.cpp", "source/context.cpp", "source/class.cpp", "source/function.cpp", "source/config.cpp"],
     [("includes of types", "source/type.cpp IncludeSet, add_relevant_includes, add_relevant_include_for_decl"), ("per entity", "source/class.cpp ClassBinder::add_relevant_includes, source/function.cpp FunctionBinder::add_relevant_includes"), ("directives", "source/config.cpp includes_code, is_include_skipping_requested, class_includes, namespace_includes")], TECH, REAL + " Each file is compiled alone by the real compiler.")

prop("C18", "Settings act on every function and class they are about, and on no other",
     "Return value policies (`+default_static_…`, `+default_member_… _return_value_policy`), the call guard, `+/-module_local_namespace`, `+buffer_protocol`, `+prefix_for_static_member_functions`, `+custom_shared`, `+trampoline_member_function_binder`, `+smart_holder`, `+pybind11_include_file`, `+/-python_builtin` and --include-pybind11-stl have their documented effect in Python on every binding they apply to — whatever form the binding has (plain, with default arguments, overloaded, template instance, variadic, inherited, lifted by using, operator, nested class) — in any combination, and no effect on any other binding. Settings that are not given leave pybind11's own defaults.",
     ["configurations", "programs"], "all combinations of settings within the bounds x forms of binding; effects observed from Python",
     "tests hold one configuration per setting and compare text for one or two forms of function",
     ["source/function.cpp", "source/class.cpp", "source/config.cpp", "source/context.cpp", "source/type.cpp"],
     [("policies and guard", "source/function.cpp bind_function"), ("class settings", "source/class.cpp ClassBinder::bind, binding_public_member_functions, bind_member_functions_for_call_back"), ("module local", "source/config.cpp is_module_local_requested"), ("built-ins", "source/type.cpp is_python_builtin")], TECH, REAL + " smart_holder is compared as text: no pybind11 that has it is installed here.")

prop("C19", "A config file means its directives in any layout; anything else is rejected",
     "The output depends only on which directives a config file holds: any mixture of spaces and tabs between the parts of a line and inside names, trailing blanks, CRLF line ends, a last line without newline, comments and empty lines anywhere, any order of the lines (that of `+include` lines among each other apart), lines given twice and names of any length give exactly the files that the plain list gives; `--bind`/`--skip` on the command line are the same rules as `+/-namespace`. Every directive of the documented vocabulary has an effect on a program that holds what it names. A file with a line that starts with anything but `+`, `-` or `#`, with an unknown, misspelt or wrongly capitalised directive, without a name, or without the second part where one is needed, and a file that does not exist, make binder fail without generating anything.",
     ["configurations"], "all directives x line layouts; file layouts; all pairs of directives in both orders; malformed lines at every place",
     "tests use well-formed files written in one style",
     ["source/config.cpp", "source/main.cpp", "source/util.cpp"],
     [("reading", "source/config.cpp Config::read, split_in_two; source/util.cpp trim"), ("command line", "source/main.cpp BinderFrontendAction, BinderASTConsumer")], TECH, "Real binder executable on every config file; the outputs are compared byte by byte.")

prop("C20", "Containers of the standard library behave as their models in any state",
     "`std::vector` and `std::map` bound with the functions of stl_binders.hpp (`+binder std::vector binder::vector_binder`, `+binder std::map binder::map_binder`) behave in Python like a list and a dict ordered by the comparator, whatever they hold and wherever the object comes from (constructed in Python, a copy, an attribute of a C++ object, a C++ shared pointer): every operation of the class - including `swap`, `empty`, `reserve`, `capacity`, `max_size`, `shrink_to_fit`, `==` - gives the model's result or exception, leaves the model's contents, and C++ sees the same contents; the original and not a copy is changed. Their classes lie in module `std` and are named after the element types (`vector_int`, `map_std_string_n_A`); instances that differ only in comparator or allocator are different classes with different names. The classes binder generates itself for `std::vector`, `std::deque`, `std::list` and `std::set` compile, accept exactly elements of the right type, and their member functions do what they do in C++.",
     ["histories", "programs"], "all contents up to the bound x all operations x origin of the object x element type x container",
     "tests only compare the text of one vector and one map binding and never execute them",
     ["source/stl_binders.hpp", "source/class.cpp", "source/type.cpp", "source/util.cpp"],
     [("vectors and maps", "source/stl_binders.hpp vector_binder, map_binder"), ("custom binder call", "source/class.cpp bind_with_custom_binder"), ("generated classes", "source/class.cpp, source/function.cpp bind_function, source/type.cpp")], TECH, REAL + " Every operation is applied in every state of the compiled class, next to the model.")

prop("C21", "Documentation generator: one page per module, linked as the modules nest",
     "For every module tree, given as the .modules file binder wrote or as a directory of Python packages (with or without a trailing slash), sphinx-doc-generator.py writes into the output directory - created if needed, the current directory if none is given - exactly one `<full name>.rst` for the root and for every module below it up to `--depth` levels, and `summary.js` where `--javascript-path` asks for it, and nothing else. Each page has the module's own name as title with an underline of the same length, documents (automodule) exactly that module under its full dotted name, links to exactly those pages that are its direct children, in sorted order, and takes the script from `--javascript-web-path`. The root is called what `--root` says, else after the file or directory. Modules whose names begin alike or equal the root's name are kept apart; directories without `__init__.py` and files that are no modules get no pages.",
     ["inputs", "options"], "all module trees up to the bound x options, from the output of the real binder and from directories",
     "no test runs this script",
     ["sphinx-doc-generator.py", "source/context.cpp"],
     [("pages", "sphinx-doc-generator.py generate_rst_sphinx_files"), ("directories", "sphinx-doc-generator.py collect_python_modules"), ("list of modules", "source/context.cpp Context::generate")], TECH, "The script itself is executed on every tree; .modules files are written by the real binder. Namespaces that binder renames in Python (`global`, `nonlocal`) are outside the explored space.")

prop("C22", "Objects live exactly as long as Python or C++ holds them, and stay themselves",
     "In every history of creating objects (in Python, as an instance of a Python subclass, by C++ as shared pointer or by value), handing them to C++ shared pointers of the class or of a polymorphic base, getting them back, taking them from `shared_from_this` or from attributes, and letting go of them on either side in any order, an object of a bound class is destroyed exactly when the last Python variable and the last C++ shared pointer to it are gone - neither earlier nor later nor twice; what Python gets back is that very object, and while a Python object for it exists it is that same Python object, with its overrides. An attribute that is a class object keeps the object it is part of alive; one that is a shared pointer shares its target. Objects of classes whose destructor is not public are never destroyed by Python, whatever Python does with them. This holds for every kind of class: plain, polymorphic, abstract, derived (also as second or virtual base), nested, template instances, copyable or not, derived from `enable_shared_from_this` directly or through a base. The generated code compiles.",
     ["histories", "programs"], "all histories up to the bound on two Python variables and C++ holders x kinds of class x layout and holder setting",
     "tests never run generated code; ownership mistakes show only in particular orders of letting go",
     ["source/class.cpp", "source/context.cpp", "source/config.cpp", "source/function.cpp"],
     [("holder", "source/class.cpp ClassBinder::bind, is_inherited_from_enable_shared_from_this, maybe_base_classes"), ("declarations", "source/context.cpp Context::generate (PYBIND11_DECLARE_HOLDER_TYPE)"), ("holder setting", "source/config.cpp holder_type")], TECH, REAL + " Objects count themselves; the model says who holds whom. Once the Python object is gone its overrides are gone too (pybind11), which the model includes.")
