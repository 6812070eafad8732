#!/usr/bin/env python3
"""Property texts; writes properties.jsonl and MANIFEST.json for the properties that have jobs in properties_jobs.py."""
import json
import os
from properties_jobs import PROPS

TESTS = "the repository's tests generate bindings for about forty fixed headers and import them; "
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": TESTS + why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or ["generated source files"], "hook_needed": None}})


prop("C01", "Most specific namespace rule decides whether a namespace is bound or skipped",
     "For every namespace and every set of bind and skip namespace rules, the namespace is bound exactly when the longest rule naming it or one of its enclosing namespaces (an empty bind rule names everything) is a bind rule, and skipped exactly when that longest rule is a skip rule. A rule covers whole namespace names only, the order of the rules never matters, and when the longest bind rule and the longest skip rule that cover the namespace are the same name the run is refused with an error.",
     ["inputs", "configurations"], "every namespace name and every list of bind and skip rules", "each uses one or two hand-picked namespaces, so prefixes of names, ties and rule orders are not sampled.",
     ["source/config.cpp"], [("Config::is_namespace_binding_requested", "source/config.cpp"), ("Config::is_namespace_skipping_requested", "source/config.cpp")])
prop("C10", "Type spellings are normalised only where a whole name says so",
     "When binder normalises the spelling of a type it replaces the built-in boolean and null-pointer type names only where they stand as whole words, removes the standard library's implementation namespaces, and leaves out default allocator, comparator and hash arguments of standard containers exactly when they are the defaults; every other character is preserved. Normalising a normalised name changes nothing.",
     ["inputs"], "every surrounding text, every container and every combination of default and non-default arguments", "they use only a few standard containers with default arguments and no identifiers that contain the replaced words.",
     ["source/type.cpp"], [("fix_boolean_types", "source/type.cpp"), ("standard_name", "source/type.cpp"), ("simplify_std_class_name", "source/type.cpp")], ["type names in generated code"])
prop("C12", "Call policies and guards of registrations are those configured for their kind",
     "Every function or method registration that returns a pointer or an lvalue reference carries the return value policy configured for that kind of return type and for static (free functions and static members) or member context, or the automatic policy when none is configured; registrations that return anything else carry none. Every such registration, shorter default-argument forms included, carries the call guard exactly when one is configured, and static members get the configured name prefix, which nothing else gets.",
     ["configurations", "programs"], "every subset of the policy, guard and prefix directives with any values, and every return type category of free, static and member functions", "only one configuration of policies is sampled.",
     ["source/function.cpp", "source/config.cpp"], [("bind_function", "source/function.cpp"), ("Config default policies", "source/config.hpp")])
prop("C13", "Each default argument count of a function is callable from Python exactly once",
     "A function, method, static method or constructor with n parameters of which the last d have defaults is registered once for every argument count from n-d to n and for no other. The registration for k arguments names the first k parameters in order, forwards exactly these to the C++ function, and leaves the rest to C++ defaults.",
     ["programs"], "every placement of trailing defaults on free functions, methods, static methods, constructors and variadic functions", "the generated text comparisons fail at baseline, and import tests do not call the functions.",
     ["source/function.cpp", "source/class.cpp"], [("bind_function with default arguments", "source/function.cpp"), ("bind_constructor", "source/class.cpp")])
prop("C14", "Exactly the public, usable members of a class are exposed",
     "For a bound class, every public non-deleted constructor, method, static method, data member other than bit-fields, nested class and nested enumeration that binder can express is registered exactly once and nothing that is protected, private or deleted ever is, nor anything that needs such a type in its signature. Data members are writable unless they are const or their type can not be assigned, and of a const and a non-const overload with the same parameters only the non-const one is registered.",
     ["programs"], "every assignment of access levels, deletion and const qualifiers to constructors, methods, overloads, fields and nested types", "each test class has one fixed access layout.",
     ["source/class.cpp", "source/function.cpp"], [("ClassBinder::bind", "source/class.cpp"), ("is_bindable", "source/function.cpp"), ("is_const_overload", "source/class.cpp")])
prop("C17", "Enumerations keep all their values and their scoping",
     "A bound enumeration is registered once, in its own scope, with every enumerator exactly once in declaration order and under its own name and value. The values are exported to the enclosing scope, and the enumeration is arithmetic, exactly when it is unscoped; unnamed and non-public enumerations are never registered.",
     ["programs"], "every scoping kind, number and naming of enumerators and access level", "two fixed enumerations are sampled.",
     ["source/enum.cpp"], [("bind_enum", "source/enum.cpp"), ("is_bindable", "source/enum.cpp")])

prop("C02", "Explicit directives decide what is bound, the most specific one first",
     "A directive naming a function (by name or by full signature), class, template, template instantiation, enumeration or data member decides whether it is bound, before any namespace rule: the directive for the full signature or instantiation before the one for the plain name, and otherwise the namespace rules. Spaces in directives do not matter, a directive never affects other entities whose names merely start alike, and everything that uses a skipped class is skipped with it unless it is itself requested.",
     ["configurations", "programs"], "every combination of absent, bind and skip directives for overlapping entities", "each test configuration names one or two entities and never combines a general directive with a specific one.",
     ["source/config.cpp", "source/function.cpp", "source/class.cpp", "source/enum.cpp"], [("Config::is_function_binding_requested and the other requests", "source/config.cpp"), ("is_binding_requested / is_skipping_requested", "source/function.cpp"), ("is_skipping_requested", "source/class.cpp")])
prop("C15", "Trampolines override exactly the virtual methods Python may override",
     "A bound class gets a trampoline exactly when it has overridable virtual methods and can be derived from; its trampoline overrides every visible virtual, non-final, accessible and not skipped method of the class and its bases exactly once, with the same signature, constness and exception specification, calling the C++ version by default and the pure version only where the method is pure. A class is constructible from Python through its trampoline exactly when this leaves no pure method, and abstract classes without such a trampoline are never constructed.",
     ["programs", "configurations"], "every combination of virtuality, purity, finality, constness, access, overriding and skipping in a class and its base", "each test hierarchy is one fixed combination.",
     ["source/class.cpp"], [("ClassBinder::bind_call_back_structure", "source/class.cpp"), ("is_callback_structure_needed", "source/class.cpp"), ("is_callback_structure_constructible", "source/class.cpp"), ("bind_member_functions_for_call_back", "source/class.cpp")])

prop("C04", "Bases are registered before derived classes and nothing else is named as base",
     "In the order in which the generated functions run, every class is registered after all of its public bases that are bound, which are all and only the bases its registration names; private, protected, skipped and not bindable bases are never named. This holds for classes, nested classes and template instantiations, whatever their order of declaration and however the code is split into files, and a public base outside the requested namespaces is bound because the derived class needs it.",
     ["programs", "configurations"], "every combination of access of inheritance relations and of skip directives in hierarchies of templates, nested classes and several namespaces", "each test hierarchy is declared in an order that happens to work.",
     ["source/context.cpp", "source/class.cpp"], [("Context::sort_binders", "source/context.cpp"), ("ClassBinder::dependencies", "source/class.cpp"), ("maybe_base_classes", "source/class.cpp")])
prop("C05", "Every type a registered signature needs is itself registered",
     "If a function, method or constructor is registered, then every class and enumeration that is named in its parameters or result, through pointers, references, typedefs and template instantiations, is registered as well (also outside the requested namespaces), unless it is skipped or a builtin type; and the types needed by their own bases and methods in turn. A signature with a type that can not be bound or a class that is skipped is not registered, and nothing that is not needed is added.",
     ["programs", "configurations"], "every type out of fourteen categories in each position of a signature, with and without a skip directive for it", "a missing type shows only when the function is called from Python.",
     ["source/context.cpp", "source/type.cpp", "source/function.cpp"], [("request_bindings", "source/type.cpp"), ("Context::request_bindings", "source/context.cpp"), ("is_bindable", "source/function.cpp"), ("is_skipping_requested", "source/type.cpp")])
prop("C06", "Every registration is written once and reached once whatever the file layout",
     "For every maximum file size and every layout option, each requested declaration is registered by exactly one line of exactly one generated function, in declaration order; each function is defined in exactly one file, declared and called exactly once by the root module; and every file written appears exactly once in the list of sources, root module first. A file holds registrations of one namespace, and a new one is started as soon as, and not before, the maximum size is reached. Different headers never share a file or function name.",
     ["configurations", "programs"], "every maximum file size, every layout option and every set of skipped declarations", "they use the default maximum size, where all of a test fits in one file.",
     ["source/context.cpp"], [("Context::generate", "source/context.cpp"), ("file_name_prefix_for_binder", "source/context.cpp")], ["generated source files", "list of sources"])
prop("C18", "Customisation directives apply to exactly the entities they name",
     "Custom holder types, buffer protocol, smart holder, module-local, custom binders and add-on binders for classes and namespaces, builtin declarations and custom includes take effect for every entity they name, template instantiations included, and for no other; a custom binder replaces the generated registration, an add-on is called in addition after it, a namespace binder is called exactly once, and the most specific module-local rule wins. Classes whose destructor is not public or deleted get a holder that does not delete them.",
     ["configurations", "programs"], "every combination of these directives for overlapping classes, templates and namespaces with symbolic values", "each directive is used in one test with one value and never combined.",
     ["source/config.cpp", "source/class.cpp", "source/context.cpp", "source/enum.cpp"], [("ClassBinder::bind", "source/class.cpp"), ("Config::is_module_local_requested", "source/config.cpp"), ("namespace binders in Context::generate", "source/context.cpp")])

prop("C07", "Namespaces become nested Python modules, created before anything is put in them",
     "The root module creates exactly one submodule for every namespace that has a registration and for every namespace that encloses one, each under its own name inside the submodule of its enclosing namespace and after it, and no other. Every registration is put in the submodule of its own namespace (the root module for the global namespace), and the list of modules names exactly these submodules.",
     ["programs", "configurations"], "every set of nested namespaces with shared, repeated and prefix names, and every subset of declarations that is skipped", "they use one or two namespaces that all contain bindings themselves.",
     ["source/context.cpp", "source/util.cpp"], [("Context::create_all_nested_namespaces", "source/context.cpp"), ("Context::module_variable_name", "source/context.cpp"), ("base_namespace and last_namespace", "source/util.cpp"), ("namespace_from_named_decl", "source/util.cpp")], ["generated root module", "list of modules"])
prop("C11", "A run that succeeds leaves complete files and does not touch those up to date",
     "When binder succeeds every output file holds exactly the generated text, whatever was there before (nothing, a different file, an interrupted earlier run), in directories that it created where needed whatever their names; a bindings file whose content is already right is not written again. When a directory can not be created, or a file can not be opened or written completely, the run fails with an error.",
     ["inputs", "fault_sequences", "histories"], "every old and new content and a fault at every point of writing", "they start from an empty directory on a disk with room and look only at success.",
     ["source/util.cpp", "source/context.cpp"], [("update_source_file", "source/util.cpp"), ("Context::generate", "source/context.cpp")], ["output files", "exit status"])
prop("C16", "Member operators get the Python method of the same meaning and arity",
     "Every public member operator that has a Python counterpart is registered exactly once under that name: the unary and the binary form of + - * and the prefix and postfix form of ++ -- are told apart by their number of parameters, call operators of any arity become __call__, and virtual operators are overridable from Python under the same name. Operators without a counterpart, conversions, operator new and delete and free operators are never registered.",
     ["programs"], "every operator C++ has, with and without a parameter, in classes, template instantiations and trampolines", "two operators are sampled and never called.",
     ["source/function.cpp", "source/class.cpp"], [("cpp_python_operator", "source/function.cpp"), ("python_function_name", "source/function.cpp"), ("is_bindable_raw", "source/function.cpp")])

prop("C09", "Doc comments reach the docstring of the entity they document unchanged",
     "The documentation comment of a function, method, static method, class, nested class or enumeration arrives in its docstring with all its characters and lines in order, and entities without a comment get none; functions additionally get their C++ signature after it. Every string literal in the generated code is well formed and stands for the intended text, whatever quotes, backslashes or other characters comments, default values and type names contain.",
     ["inputs", "programs"], "every character in comments and type names, and every subset of documented entities", "their comments contain only letters and spaces.",
     ["source/util.cpp", "source/function.cpp", "source/class.cpp", "source/enum.cpp"], [("generate_documentation_string_for_declaration", "source/binder.cpp"), ("escape_string_literal", "source/util.cpp"), ("bind_function", "source/function.cpp")], ["docstrings in generated code"])

prop("C03", "Every line of a config file has exactly the effect its directive stands for",
     "Blank lines and lines that start with # have no effect, with either kind of line end and wherever they are; a line of + or -, a directive, a blank and a name has the effect of this directive on this name (spaces in it do not matter) and no other effect; and the last line counts without line end. Any other line (another first character, an unknown or misspelled directive, a missing name or value) makes the run fail with an error and is never silently ignored.",
     ["inputs", "configurations"], "every directive, sign, separator, spelling of the directive, name and line end", "their config files are few, well formed and use a third of the directives.",
     ["source/config.cpp"], [("Config::read", "source/config.cpp"), ("split_in_two", "source/config.cpp"), ("Config requests", "source/config.cpp")], ["config file"])
prop("C20", "Generated names are valid, distinct and those of the classes they stand for",
     "Every override class has a valid C++ name that no other override class has, whatever the classes, namespaces and template arguments are called, is derived from its own class and used in the registration of this class only. A class is registered in Python under its own name; an instantiation of a class template under the name of the template and its arguments with every run of separators turned into one underscore, pointers and references spelled out as _star_ and _ref_, and a final t.",
     ["programs", "inputs"], "every pair of class and namespace names and every text of a type", "no two of their classes have names that become equal.",
     ["source/util.cpp", "source/class.cpp"], [("mangle_type_name", "source/util.cpp"), ("callback_structure_name", "source/class.cpp"), ("python_class_name", "source/class.cpp"), ("template_specialization", "source/class.cpp")], ["names in generated code"])

prop("C08", "Every generated file includes what it needs and what the configuration says",
     "A file that registers a function, class or enumeration includes the header that declares it and the headers of all types in the signatures of the function, or of the methods, constructors and overrides of the class: through pointers, references, typedefs and template arguments of any depth, also where the declaring header only has a forward declaration; whatever else is in the file. Headers that nothing in a file needs are not included; includes configured for a class or namespace appear in exactly the files with registrations of it, and a header that is configured to be skipped in none.",
     ["programs", "configurations"], "every type out of nine categories in each position of a signature, with every combination of include directives and skipped classes", "all their types are defined in one header.",
     ["source/type.cpp", "source/class.cpp", "source/function.cpp", "source/binder.cpp", "source/context.cpp"], [("add_relevant_includes", "source/class.cpp"), ("IncludeSet::add_decl", "source/binder.cpp"), ("relevant_include", "source/type.cpp"), ("generate_include_directives", "source/context.cpp")], ["include lines in generated code"])


prop("C19", "Classes convert to text exactly when they have an insertion operator",
     "Every bound class, nested class or template instantiation C for which a free operator std::ostream & <<(std::ostream &, C const &) is declared, as function, friend or template, in any namespace, registers __str__ exactly once, with a text made by this operator, which is visible to the generated code and whose header the file includes. No other class does, a skip directive for C::__str__ or for that of its template leaves exactly this out, and such operators are never registered as methods.",
     ["programs", "configurations"], "every set of classes, operators and skip directives", "the classes of its tests have one operator each in their own namespace.",
     ["source/context.cpp", "source/class.cpp"], [("Context::global_insertion_operator", "source/context.cpp"), ("Context::add_insertion_operator", "source/context.cpp"), ("ClassBinder::bind_repr", "source/class.cpp"), ("VisitFunctionDecl", "source/main.cpp")], ["string conversion"])


prop("C21", "Inherited members and constructors are exposed where C++ makes them accessible",
     "A method or data member of a base that a public using declaration brings into a class is registered once with this class, as a member of it, unless it is skipped, and those of other using declarations never are; constructors inherited by a using declaration are registered exactly when they are public and not deleted. A class that declares no constructor gets a default constructor exactly when C++ gives it one, that is when all its bases and data members can be default constructed. Instantiations of class templates also register the public members of their public bases, at any depth, and other classes leave this to Python.",
     ["programs", "configurations"], "every combination of access, deletion, base and data member types", "they have one class with using declarations.",
     ["source/class.cpp"], [("binding_public_member_functions", "source/class.cpp"), ("binding_public_data_members", "source/class.cpp"), ("binding_template_bases", "source/class.cpp"), ("ClassBinder::bind", "source/class.cpp"), ("implicit_default_constructor_available", "source/class.cpp")], ["registrations of a class"])


prop("C22", "Options and directives change nothing but what they are about",
     "Annotation, line number, verbosity and tracing options change nothing in the generated code except comments, trace statements and their include: the declarations registered, their form, order, files and modules stay the same. A directive whose name is not that of an entity of the input changes nothing at all, and a skip directive for a function, overload, data member, enumeration, text conversion or virtual method removes exactly its own registration (and override) and leaves every other line as it was.",
     ["configurations"], "every combination of options, every name of a directive that names nothing, every subset of skip directives", "each of their inputs is run with one set of options and directives.",
     ["source/options.cpp", "source/context.cpp", "source/class.cpp", "source/function.cpp", "source/type.cpp", "source/config.cpp"], [("Context::generate", "source/context.cpp"), ("bind_function", "source/function.cpp"), ("add_relevant_include_for_decl", "source/type.cpp"), ("Config requests", "source/config.cpp")], ["generated code"])

prop("C23", "Every registration refers to exactly the C++ function it stands for",
     "The registration of a function, method, static method, constructor, template instantiation or method made accessible by a using declaration refers to exactly this function: by an address whose type has its result, class, parameters and qualifiers and by its full name with all template arguments, or by a lambda with the same parameters, object constness and result that calls it; every type is spelled by its full name, whatever way it was written. An override has the signature of the method it overrides and returns its result. Functions that can not be referred to or called in this way (friends without a visible declaration, rvalue and volatile methods, member pointers, double pointers, function pointers and rvalue references in the signature) are never registered.",
     ["programs"], "every combination of parameter type, result type, default argument and method qualifiers", "each test header has a handful of signatures and the generated code is only compared as text.",
     ["source/function.cpp", "source/class.cpp", "source/type.cpp", "source/util.cpp"], [("function_pointer_type", "source/function.cpp"), ("bind_function", "source/function.cpp"), ("function_arguments_for_lambda", "source/function.cpp"), ("standard_name", "source/type.cpp"), ("bind_constructor", "source/class.cpp"), ("bind_member_functions_for_call_back", "source/class.cpp")], ["generated code"])


def write():
    here = os.path.dirname(os.path.abspath(__file__))
    claimed = [p for p in P if p["id"] in PROPS]
    claimed.sort(key=lambda p: p["id"])
    with open(here + "/properties.jsonl", "w") as f:
        for p in claimed:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 symcheck.py --setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 symcheck.py %s --tier quick" % p["id"], "thorough_cmd": "python3 symcheck.py %s --tier thorough" % p["id"],
                     "technique": "symbolic execution of the compiled sources with Z3, bounded; counterexamples replayed natively",
                     "level": "model_checking",
                     "level_note": "Decided by Z3 for all values within: " + "; ".join(j["name"] + ": " + j["bounds"] for j in PROPS[p["id"]]["jobs"]) + ". Outside: " + PROPS[p["id"]].get("excluded", "everything else") + ". Trusts clang's bitcode, libclang's parser, the stream and file models of harness/runtime.cpp and the executor in engine/; sampled paths are compared with a native build."}
                    for p in claimed],
         "not_applicable": NA,
         "notes": "No hooks. See DESIGN.md."}
    with open(here + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    write()
