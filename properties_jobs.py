"""Jobs per property: which harness, which sources, which bounds."""

PROPS = {
    "C01": {
        "level": "model_checking",
        "excluded": "rule and namespace names beyond the stated shapes; --skip \"\" (an empty skip rule)",
        "jobs": [
            {"name": "rules", "harness": "p01_namespace.cpp",
             "params": {"segs": 2, "rsegs": 2, "maxrules": 3}, "thorough": {"segs": 3, "rsegs": 3, "maxrules": 3},
             "reach": ["bind", "nobind", "conflict", "skip", "noskip"],
             "bounds": "namespaces of 0..segs nested names and 1..maxrules rules of 0..rsegs names, each name 1..2 arbitrary characters of {a,b,_}; every split of the rules into + and -, every order"},
        ],
    },
    "C13": {"level": "model_checking", "excluded": "more than three parameters, defaults on more than one function of the same name", "jobs": [
        {"name": "functions", "harness": "c13_defaults.cpp", "sources": "main", "params": {"which": 0}, "reach": ["count0", "count1", "count2", "count3"],
         "bounds": "whole program on a header with a free function, a method and a static method of three parameters; which parameters have defaults is symbolic (every valid placement, jointly)"},
        {"name": "ctors", "harness": "c13_defaults.cpp", "sources": "main", "params": {"which": 1}, "reach": ["count0", "count1", "count2", "count3"],
         "bounds": "whole program on a header with a constructor, a variadic function and a function with a function reference parameter; which parameters have defaults is symbolic"},
        {"name": "copies", "harness": "c13_defaults.cpp", "sources": "main", "params": {"which": 3}, "reach": ["count0", "count1", "count2"], "bounds": "whole program; constructors that take an object of their class (const or not) and one or two more parameters, all choices of defaults, symbolic access, class without virtual methods, with one or with a pure one"},
        {"name": "templates", "harness": "c13_defaults.cpp", "sources": "main", "params": {"which": 2}, "reach": ["count0", "count1", "count2", "count3"],
         "bounds": "whole program on a header with instantiations of a function template, a method template and a template with a parameter pack, and a protected method made accessible by a using declaration; which parameters have defaults is symbolic"},
    ]},
    "C14": {"level": "model_checking", "excluded": "inherited members, operators", "jobs": [
        {"name": "ctors", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 0}, "bounds": "whole program; class with four constructors, each access and each deletion symbolic"},
        {"name": "methods", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 1}, "bounds": "whole program; class with six methods (overloads, static, const pair, const only), each access and deletion symbolic"},
        {"name": "constpair", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 4}, "bounds": "whole program; class with a const/non-const pair of methods, another const method and two instantiated member function templates (one static), each access symbolic, virtual or not"},
        {"name": "fields", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 2}, "bounds": "whole program; class with seven data members of all categories, each access symbolic, constness of one symbolic, another one a bit-field or not"},
        {"name": "writable", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 5}, "reach": ["writable", "readonly"], "bounds": "whole program; data member with symbolic access of a type chosen symbolically out of thirty-five: values, enumerations, classes whose assignment is declared, implicit, deleted, inaccessible, for non-const objects only or deleted because of a base or data member, pointers, references and arrays; access and deletion of one assignment operator symbolic"},
        {"name": "nested", "harness": "c14_members.cpp", "sources": "main", "params": {"which": 3}, "bounds": "whole program; class with a nested class, a nested class defined outside, a nested union, a nested enumeration, an instantiation of a nested class template and three methods that use them, each access symbolic"},
    ]},
    "C17": {"level": "model_checking", "excluded": "more than three enumerators, documentation of enumerators", "jobs": [
        {"name": "enums", "harness": "c17_enums.cpp", "sources": "main", "params": {"which": 0}, "thorough": {"which": 1}, "reach": ["scoped", "unscoped"],
         "bounds": "whole program; a namespace-level and a nested enumeration, each unscoped, enum class or enum struct, 0 to 3 enumerators with symbolic names, nested one with symbolic access"},
    ]},
    "C10": {"level": "model_checking", "excluded": "longer surrounding texts, containers nested deeper than two", "jobs": [
        {"name": "bool", "harness": "c10_names.cpp", "params": {"which": 0, "n": 2}, "thorough": {"n": 3}, "reach": ["changed", "unchanged"], "bounds": "the word alone or twice with 0..n arbitrary characters of an 11 letter alphabet before and after"},
        {"name": "containers", "harness": "c10_names.cpp", "params": {"which": 2}, "reach": ["default", "custom"], "bounds": "twelve containers, seven element and seven value types, default or three other comparators (hash functions, equalities), default or two other allocators"},
        {"name": "streams", "harness": "c10_names.cpp", "params": {"which": 4}, "reach": ["full", "typedef"], "bounds": "fourteen stream and string templates with four character types, traits and allocator left out, default or one of two others; alone or within one of four texts, written with or without spaces"},
        {"name": "inline", "harness": "c10_names.cpp", "params": {"which": 3}, "reach": ["inline"], "bounds": "up to two occurrences of the implementation namespaces with up to 2 and 3 arbitrary characters before and after"},
        {"name": "nullptr", "harness": "c10_names.cpp", "params": {"which": 1, "n": 2}, "thorough": {"n": 3}, "reach": ["changed", "unchanged"], "bounds": "as bool"},
    ]},
    "C12": {"level": "model_checking", "excluded": "rvalue reference results; directive values longer than four characters", "jobs": [
        {"name": "policies", "harness": "c12_policies.cpp", "sources": "main", "params": {"which": 0}, "reach": ["static", "member"], "bounds": "whole program; each of the six policy directives present or not, symbolic values, four functions with pointer and reference results, one symbolically static"},
        {"name": "returns", "harness": "c12_policies.cpp", "sources": "main", "params": {"which": 1}, "reach": ["none", "static", "member"], "bounds": "whole program; symbolic result type of each of four functions out of six categories, guard and prefix directives present or not with symbolic values"},
    ]},
    "C15": {"level": "model_checking", "excluded": "virtual inheritance, deeper hierarchies, the same method in two bases, operators, templates", "jobs": [
        {"name": "single", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 0}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; one class, two methods with symbolic access and kind (plain, virtual, pure, final), symbolic skip directive, class final or not; three classes without declared constructors, two of them abstract"},
        {"name": "const", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 1}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; one class with a const/non-const pair and another method, symbolic access and kind"},
        {"name": "inherit", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 2}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; base and derived class, symbolic base access, two base methods and an overriding method with symbolic access, kind and skip directive"},
        {"name": "constinherit", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 4}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; base with a const/non-const pair and derived class that overrides either, both or none, symbolic kind (plain, virtual, pure) and access (public, private)"},
        {"name": "twobases", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 6}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; class with two bases, symbolic access of both, one method in each base (plain, virtual or pure, one with symbolic access) and an overriding method that is there or not"},
        {"name": "quals", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 5}, "reach": ["trampoline", "trampoline-abstract", "abstract", "plain"], "bounds": "whole program; one class with symbolic access and deletion of its destructor, a method that is variadic or not and one with five combinations of reference, const and volatile qualifiers, both plain, virtual, pure or final"},
        {"name": "spec", "harness": "c15_trampolines.cpp", "sources": "main", "params": {"which": 3}, "reach": ["trampoline", "custom"], "bounds": "whole program; five exception specifications on two virtual methods, custom override directive present or not"},
    ]},
    "C02": {"level": "model_checking", "excluded": "more than one directive of the same kind for the same name", "jobs": [
        {"name": "functions", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 0}, "reach": ["bound", "skipped"], "bounds": "whole program; five directives (namespace, function name, two signatures with extra spaces, a name that is a prefix of none), each absent, + or -; each directive absent, + or -, symbolically"},
        {"name": "templates", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 1}, "reach": ["bound", "skipped"], "bounds": "whole program; function template with two instantiations; directives for the namespace, the template and one instantiation; each directive absent, + or -, symbolically"},
        {"name": "users", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 2}, "reach": ["bound", "skipped"], "bounds": "whole program; directives for the namespace, a class and two functions that use it, one more function in another namespace; each directive absent, + or -, symbolically"},
        {"name": "classes", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 3}, "reach": ["bound", "skipped"], "bounds": "whole program; class template with two instantiations; directives for the namespace, the template, one instantiation, a member of the template and of the instantiation; each directive absent, + or -, symbolically"},
        {"name": "members", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 4}, "reach": ["bound", "skipped"], "bounds": "whole program; directives for overloaded methods, a constructor, a field, a nested enumeration and a nested class; each directive absent, + or -, symbolically"},
        {"name": "uses", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 6}, "reach": ["bound", "skipped"], "bounds": "whole program; five instantiations, six methods, two constructors and six functions that use a class of the same or another namespace, directly or as template argument; directives for the classes, an instantiation, a method and the other namespace; each directive absent, + or -, symbolically"},
        {"name": "enums", "harness": "c02_directives.cpp", "sources": "main", "params": {"which": 5}, "reach": ["bound", "skipped"], "bounds": "whole program; directives for a namespace, a nested namespace and an enumeration in each; each directive absent, + or -, symbolically"},
    ]},
    "C18": {"level": "model_checking", "excluded": "longer directive values, several values for the same name", "jobs": [
        {"name": "holders", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 0}, "thorough": {"long": 4}, "reach": ["applied"], "bounds": "whole program; custom_shared with a symbolic name of up to 2 (thorough: 4) characters, buffer_protocol and smart_holder directives for a class and a class template each absent, + or -, destructor access of two classes symbolic and that of one deleted or not"},
        {"name": "local", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 1}, "reach": ["applied", "not-applied", "conflict"], "bounds": "whole program; module_local_namespace directives for all namespaces, a namespace (twice) and a nested namespace, each absent, + or -; classes and enumerations in four namespaces"},
        {"name": "binders", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 2}, "reach": ["applied", "not-applied"], "bounds": "whole program; binder and add_on_binder directives for a class, a class template with two instantiations, a class template with three arguments and a derived class, each absent, + or -, with symbolic function names of up to 2 characters"},
        {"name": "namespaces", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 3}, "reach": ["applied", "not-applied"], "bounds": "whole program; namespace binders, namespace add-on binders, namespace includes and pybind11 include file, each absent, + or -, with symbolic names"},
        {"name": "nsfiles", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 3, "small": 1}, "reach": ["applied", "not-applied"], "bounds": "as namespaces, with one registration per file"},
        {"name": "nested", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 5}, "reach": ["applied", "not-applied"], "bounds": "whole program; binder and add_on_binder directives for nested classes and trampoline_member_function_binder directives for a method (symbolically const, symbolically pure, inherited by another class) and a method of a nested class, each absent, + or -, with symbolic names"},
        {"name": "builtins", "harness": "c18_custom.cpp", "sources": "main", "params": {"which": 4}, "reach": ["applied", "not-applied"], "bounds": "whole program; python_builtin directives for a class, a standard container and a builtin, each absent, + or -, with and without the stl option"},
    ]},
    "C23": {"level": "model_checking", "excluded": "deduction guides (they need C++17), function references, arrays, more than one symbolic parameter, default arguments of other types", "jobs": [
        {"name": "functions", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 0}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; free function with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "methods", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 1}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; method with symbolic qualifiers with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "statics", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 2}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; static method with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "lifted", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 3}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; protected method that a using declaration makes accessible, with symbolic qualifiers with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "templates", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 4}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; instantiation of a function template with type, value and pack arguments with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "instances", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 5}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; method of an instantiation of a class template, with symbolic qualifiers with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "variadic", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 6}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; variadic function with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "liftedstatics", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 9}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; protected static method that a using declaration makes accessible with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "virtuals", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 7}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; virtual method with symbolic qualifiers and its override, with a parameter and a result type each chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used; quick: one of them among the first four) and symbolic default argument"},
        {"name": "constructors", "harness": "c23_targets.cpp", "sources": "main", "params": {"which": 8}, "thorough": {"all": 1}, "reach": ["one", "both", "not-usable"], "bounds": "whole program; constructor with a parameter of a type chosen symbolically out of twenty-three (values, enumerations, pointers, references, typedefs, instantiations with types, values, packs and templates as arguments, types that can not be used) and symbolic default argument"},
    ]},
    "C04": {"level": "model_checking", "excluded": "virtual bases, circular dependencies through nested classes defined out of line", "jobs": [
        {"name": "templates", "harness": "c04_order.cpp", "sources": "main", "params": {"which": 0}, "reach": ["base", "no-base"], "bounds": "whole program; five classes, two of them instantiations of templates declared before their bases, five inheritance relations each with symbolic access, symbolic skip directive for one class"},
        {"name": "instances", "harness": "c04_order.cpp", "sources": "main", "params": {"which": 3}, "reach": ["base", "no-base"], "bounds": "whole program; two instantiations of a template that derive from two instantiations of another one outside the requested namespace, each order of the instantiations, three inheritance relations each with symbolic access, symbolic skip directive for one instantiation"},
        {"name": "several", "harness": "c04_order.cpp", "sources": "main", "params": {"which": 4}, "reach": ["base", "no-base"], "bounds": "whole program; instantiation with two bases and instantiation with two nested classes whose bases are all declared after the templates, a class with a nested base of another namespace; symbolic access of all five bases, symbolic skip directive for a base"},
        {"name": "nested", "harness": "c04_order.cpp", "sources": "main", "params": {"which": 1}, "reach": ["base", "no-base"], "bounds": "whole program; seven classes, three of them nested, four inheritance relations each with symbolic access, symbolic skip directive for an enclosing class"},
        {"name": "files", "harness": "c04_order.cpp", "sources": "main", "params": {"which": 2}, "reach": ["base", "no-base"], "bounds": "whole program, one registration per file; five classes in three namespaces of which one is requested, five inheritance relations each with symbolic access, symbolic skip directives for a class and a namespace"},
    ]},
    "C05": {"level": "model_checking", "excluded": "nested types of classes in namespaces that are not requested, types of data members, function types", "jobs": [
        {"name": "params", "harness": "c05_closure.cpp", "sources": "main", "params": {"which": 0}, "reach": ["bound", "not-bound"], "bounds": "whole program; free function and constructor (explicit or not): two signatures, each with a type chosen symbolically out of fourteen (values, pointers, references, typedefs of them, enumerations, instantiations, classes with bases and methods of their own, incomplete classes, pointers to pointers), symbolic skip directive for one class"},
        {"name": "returns", "harness": "c05_closure.cpp", "sources": "main", "params": {"which": 1}, "reach": ["bound", "not-bound"], "bounds": "whole program; result of a free function and parameter of a method: two signatures, each with a type chosen symbolically out of fourteen (values, pointers, references, typedefs of them, enumerations, instantiations, classes with bases and methods of their own, incomplete classes, pointers to pointers), symbolic skip directive for one class"},
        {"name": "members", "harness": "c05_closure.cpp", "sources": "main", "params": {"which": 2}, "reach": ["bound", "not-bound"], "bounds": "whole program; result of a const method and parameter of a static method: two signatures, each with a type chosen symbolically out of fourteen (values, pointers, references, typedefs of them, enumerations, instantiations, classes with bases and methods of their own, incomplete classes, pointers to pointers), symbolic skip directive for one class"},
    ]},
    "C06": {"level": "model_checking", "excluded": "symbolic header names, registrations of very different sizes", "jobs": [
        {"name": "files", "harness": "c06_output.cpp", "sources": "main", "params": {"which": 0}, "reach": ["registered", "several", "split"], "bounds": "whole program; eleven functions in five headers (whose names collide once turned into file and function names) and four namespaces, symbolic maximum file size from 0 to 2000, symbolic skip directives for a function and a namespace"},
        {"name": "flat", "harness": "c06_output.cpp", "sources": "main", "params": {"which": 1}, "reach": ["registered", "several", "split"], "bounds": "whole program with --flat; eleven functions in five headers (whose names collide once turned into file and function names) and four namespaces, symbolic maximum file size from 0 to 2000, symbolic skip directives for a function and a namespace"},
        {"name": "single", "harness": "c06_output.cpp", "sources": "main", "params": {"which": 2}, "reach": ["registered", "several", "split"], "bounds": "whole program with --single-file; eleven functions in five headers (whose names collide once turned into file and function names) and four namespaces, symbolic maximum file size from 0 to 2000, symbolic skip directives for a function and a namespace"},
    ]},
    "C07": {"level": "model_checking", "excluded": "inline and unnamed namespaces, longer namespace names, more than three declarations with symbolic namespaces", "jobs": [
        {"name": "names", "harness": "c07_modules.cpp", "sources": "main", "params": {"which": 0, "functions": 2, "depth": 3, "seg": 1}, "thorough": {"functions": 3, "seg": 2, "depth": 2}, "reach": ["global", "submodule"], "bounds": "whole program; two functions in symbolic namespaces of depth 0 to 3, names of one symbolic character"},
        {"name": "single", "harness": "c07_modules.cpp", "sources": "main", "params": {"which": 0, "functions": 2, "depth": 3, "seg": 1, "single": 1}, "reach": ["global", "submodule"], "bounds": "as names, with --single-file"},
        {"name": "deep", "harness": "c07_modules.cpp", "sources": "main", "params": {"which": 0, "functions": 1, "depth": 7, "seg": 1}, "reach": ["global", "submodule"], "bounds": "as names, one function in a namespace of depth 0 to 7"},
        {"name": "kinds", "harness": "c07_modules.cpp", "sources": "main", "params": {"which": 1}, "reach": ["global", "submodule", "not-bound"], "bounds": "whole program; classes, enumerations, functions and templates in eight namespaces with shared names, each with a symbolic skip directive"},
    ]},
    "C16": {"level": "model_checking", "excluded": "unary operator &, user-defined literals", "jobs": [
        {"name": "unary", "harness": "c16_operators.cpp", "sources": "main", "params": {"binary": 0}, "reach": ["mapped", "not-mapped"], "bounds": "whole program; a class and an instantiation of a class template with one operator without parameters, const or not, symbolic out of all that C++ allows, next to fixed call, conversion and free operators"},
        {"name": "binary", "harness": "c16_operators.cpp", "sources": "main", "params": {"binary": 1}, "reach": ["mapped", "not-mapped"], "bounds": "as unary, operator with one parameter"},
    ]},
    "C11": {"level": "model_checking", "excluded": "faults while reading, two faults at once, files larger than the stream buffer", "jobs": [
        {"name": "update", "harness": "c11_files.cpp", "sources": "main", "params": {"which": 0, "max": 3}, "thorough": {"max": 5}, "reach": ["up-to-date", "written", "reported"], "bounds": "one file in the output directory or a directory below it, present or not, symbolic old and new content of up to 3 characters, output directory with and without blanks in its name, and each of: directory can not be created, file can not be opened, file can not grow beyond a symbolic size"},
        {"name": "whole", "harness": "c11_files.cpp", "sources": "main", "params": {"which": 1}, "reach": ["complete", "reported"], "bounds": "whole program; two namespaces, symbolic limit from 0 to 8000 beyond which files can not grow, or one of the root module, list of sources and list of modules on a full device"},
        {"name": "single", "harness": "c11_files.cpp", "sources": "main", "params": {"which": 2}, "reach": ["complete", "reported"], "bounds": "as whole, with --single-file"},
    ]},
    "C09": {"level": "model_checking", "excluded": "comment commands and markup, carriage returns, trigraphs, longer texts", "jobs": [
        {"name": "functions", "harness": "c09_docs.cpp", "sources": "main", "params": {"which": 0}, "thorough": {"len": 4}, "reach": ["function", "shorter-form", "class", "undocumented"], "bounds": "whole program; documented function with a default argument (two lines), documented class, undocumented function, class and enumeration; every text of up to 3 symbolic characters (thorough: 4) out of backslash, quote, braces, percent, blank and letters in each line"},
        {"name": "members", "harness": "c09_docs.cpp", "sources": "main", "params": {"which": 1}, "reach": ["method", "static", "nested-class", "undocumented"], "bounds": "whole program; documented method, static method and nested class, texts as in functions"},
        {"name": "enums", "harness": "c09_docs.cpp", "sources": "main", "params": {"which": 2}, "reach": ["enumeration", "nested-enumeration", "signature"], "bounds": "whole program; documented enumerations and function with quotes in its types, texts as in functions, with --trace"},
    ]},
    "C20": {"level": "model_checking", "excluded": "template arguments whose text is not made of names, blanks, pointers, references and numbers (negative numbers, characters, function types), collisions between Python names of instantiations", "jobs": [
        {"name": "mangle", "harness": "c20_mangle.cpp", "params": {"n": 4}, "thorough": {"n": 6}, "reach": ["marked", "template", "plain"], "bounds": "names of 0..n arbitrary characters out of letter, digit, underscore, angle brackets, comma, colon, blank, star and ampersand"},
        {"name": "overrides", "harness": "c20_naming.cpp", "sources": "main", "params": {"which": 0}, "thorough": {"depth": 3, "len": 3}, "reach": ["same-length", "other"], "bounds": "whole program; two classes with virtual methods in symbolic namespaces of depth 0 to 2 (second one: 0 to 1) with names of one character and class names of 1 to 2 (second one: 1 to 3) symbolic characters of {a,_}; thorough: one more each"},
        {"name": "instances0", "harness": "c20_naming.cpp", "sources": "main", "params": {"which": 1, "group": 0}, "reach": ["bound", "skipped"], "bounds": "whole program; thirteen instantiations of four class templates with nested classes and virtual methods, and classes whose names collide with theirs; five instantiations and two classes skipped or not, symbolically"},
        {"name": "instances1", "harness": "c20_naming.cpp", "sources": "main", "params": {"which": 1, "group": 1}, "reach": ["bound", "skipped"], "bounds": "as instances0, four other instantiations"},
        {"name": "instances2", "harness": "c20_naming.cpp", "sources": "main", "params": {"which": 1, "group": 2}, "reach": ["bound", "skipped"], "bounds": "as instances0, four other instantiations"},
    ]},
    "C03": {"level": "model_checking", "excluded": "the meaning of - for directives that set a value, tabs as separators, values and names longer than the stated ones", "jobs": [
        {"name": "lines", "harness": "c03_config.cpp", "params": {"which": 0, "len": 2}, "thorough": {"len": 3}, "reach": ["accepted", "refused", "comment"], "bounds": "one line: every directive, every first character out of + - # and others, every separator, names of up to 2 (thorough: 3) symbolic characters with spaces, all line ends, the directive exact, one character short or one too long"},
        {"name": "characters", "harness": "c03_config.cpp", "params": {"which": 3}, "reach": ["plus", "minus"], "bounds": "one line: every directive, + or -, names and values with one symbolic character out of 34 inside"},
        {"name": "tokens", "harness": "c03_config.cpp", "params": {"which": 1}, "reach": ["accepted", "refused"], "bounds": "one line: every directive with one symbolic character in every position"},
        {"name": "files", "harness": "c03_config.cpp", "params": {"which": 2}, "thorough": {"all": 1}, "reach": ["comment", "directive"], "bounds": "three directives out of four groups, each +, - or commented out, with or without blank or comment lines before it, both kinds of line end, last line with or without"},
    ]},
    "C08": {"level": "model_checking", "excluded": "declarations of the standard library and its own headers, headers included in quotes", "jobs": [
        {"name": "params", "harness": "c08_includes.cpp", "sources": "main", "params": {"which": 0}, "reach": ["needed", "not-needed"], "bounds": "whole program, one registration per file; free function and constructor: two signatures, each with a type chosen symbolically out of thirteen whose headers are only included where needed, and symbolic include, include_for_class and include_for_namespace directives"},
        {"name": "returns", "harness": "c08_includes.cpp", "sources": "main", "params": {"which": 1}, "reach": ["needed", "not-needed"], "bounds": "as params, result of a free function and parameter of a method"},
        {"name": "members", "harness": "c08_includes.cpp", "sources": "main", "params": {"which": 2}, "reach": ["needed", "not-needed"], "bounds": "as params, result of a method and parameter of a static method"},
        {"name": "chain", "harness": "c08_includes.cpp", "sources": "main", "params": {"which": 3}, "reach": ["needed", "inherited"], "bounds": "whole program; three classes whose methods use each other, symbolic type in the last one, an instantiated function, a derived class that overrides an inherited method, symbolic skip directives for four classes"},
        {"name": "chainfiles", "harness": "c08_includes.cpp", "sources": "main", "params": {"which": 4}, "reach": ["needed", "inherited"], "bounds": "as chain, one registration per file"},
    ]},
    "C19": {"level": "model_checking", "excluded": "unions, operators with non-type template parameters, several operators for the same class, operators of std::wostream", "jobs": [
        {"name": "operators", "harness": "c19_str.cpp", "sources": "main", "params": {"which": 0}, "reach": ["str", "no-str"], "bounds": "whole program; nine classes and two operators << in two namespaces, result and parameter types of the first out of fourteen, of the second out of six combinations (exact forms for seven classes and near misses), symbolic skip directives for a class and a class template"},
        {"name": "operatorfiles", "harness": "c19_str.cpp", "sources": "main", "params": {"which": 1}, "reach": ["str", "no-str"], "bounds": "as operators, one registration per file, operators in headers of their own"},
        {"name": "templates0", "harness": "c19_str.cpp", "sources": "main", "params": {"which": 2, "group": 0}, "reach": ["str", "no-str"], "bounds": "whole program; nineteen classes, instantiations and nested classes with free, friend and template operators in their own, an enclosing or the global namespace, or none; five skip directives each present or not"},
        {"name": "templates1", "harness": "c19_str.cpp", "sources": "main", "params": {"which": 2, "group": 1}, "reach": ["str", "no-str"], "bounds": "as templates0, five other skip directives"},
    ]},
    "C21": {"level": "model_checking", "excluded": "data members of bases that are not public, using declarations for operators and nested types, constructors in non-public using declarations, virtual bases of instantiations", "jobs": [
        {"name": "methods", "harness": "c21_inherited.cpp", "sources": "main", "params": {"which": 0, "methods": 1}, "reach": ["shown", "hidden"], "bounds": "whole program; base with three methods (overloads, const, static with default argument) of symbolic access, derived class with using declarations of symbolic access and symbolic base access, symbolic skip directive for a method"},
        {"name": "fields", "harness": "c21_inherited.cpp", "sources": "main", "params": {"which": 0, "methods": 0}, "reach": ["shown", "hidden"], "bounds": "as methods, two data members of the base of symbolic access, using declarations of symbolic access and symbolic skip directive"},
        {"name": "constructors", "harness": "c21_inherited.cpp", "sources": "main", "params": {"which": 1}, "reach": ["shown", "hidden"], "bounds": "whole program; base with three constructors of symbolic access, deleted or not, a class that inherits them and one that does not"},
        {"name": "implicit", "harness": "c21_inherited.cpp", "sources": "main", "params": {"which": 2}, "reach": ["shown", "hidden"], "bounds": "whole program; class with a base whose default constructor has symbolic access and is deleted or not, a data member of symbolic type out of 21 and an initialised one of symbolic type out of three; fourteen more classes"},
        {"name": "bases", "harness": "c21_inherited.cpp", "sources": "main", "params": {"which": 3}, "reach": ["shown", "hidden"], "bounds": "whole program; instantiations with two levels of template bases and a plain base, a plain class with a template base, three base accesses symbolic, symbolic skip directives for two bases and a method"},
    ]},
    "C22": {"level": "model_checking", "excluded": "options and directives together, names of directives longer than stated, file splitting by size (comments and traces count for it), text of the annotations", "jobs": [
        {"name": "options", "harness": "c22_frame.cpp", "sources": "main", "baseline": True, "params": {"which": 0}, "reach": ["traced", "not-traced"], "bounds": "whole program; header with functions, default arguments, a class hierarchy with virtual methods, operators, nested types, an instantiation, enumerations and two namespaces, several files; every combination of --annotate-includes, --annotate-functions, --trace, --v and --skip-line-number"},
        {"name": "single", "harness": "c22_frame.cpp", "sources": "main", "baseline": True, "params": {"which": 0, "single": 1}, "reach": ["traced", "not-traced"], "bounds": "as options, with --single-file"},
        {"name": "directives", "harness": "c22_frame.cpp", "sources": "main", "baseline": True, "params": {"which": 1, "len": 2}, "thorough": {"len": 3}, "reach": ["not-traced"], "bounds": "the same header; one directive of any kind that takes a name, with a name of one of four prefixes and up to 2 (thorough 3) symbolic characters that is not the name of an entity"},
        {"name": "skips", "harness": "c22_frame.cpp", "sources": "main", "baseline": True, "params": {"which": 2}, "reach": ["skipped", "not-skipped"], "bounds": "the same header; every subset of eight skip directives (function with default argument, overload by signature, static method, data member, enumeration, nested enumeration, text conversion, virtual method)"},
    ]},
}
