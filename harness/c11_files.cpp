// output files: after a run that succeeds every file is complete, files that are up to date are not written again, and faults are reported
#include "e2e.h"
#include "e2e_main.inc"
#include <util.hpp>
using namespace e2e;

static string content(string const &path)
{
	uint64_t n = 0;
	const char *p = vfs_get(path.c_str(), &n);
	return p ? string(p, n) : string();
}

// one file, any old and new content, any fault
static void update()
{
	unsigned max = sym_param("max", 3);
	bool sub = pick("sub", 2), blank = pick("blank", 2), exists = pick("exists", 2);
	unsigned fault = pick("fault", 4); // none, directory can not be created, file can not be opened, file can not grow
	string prefix = string(sym_scratch()) + (blank ? "/out put" : "/output"), dir = prefix + (sub ? "/d/e" : ""), name = sub ? "d/e/f.cpp" : "f.cpp", path = prefix + "/" + name, other = prefix + "/other.cpp";
	if( not sym_mode() and chdir(sym_scratch()) ) return;
	vfs_mkdir(prefix.c_str());
	string old = exists ? sym_string("old", 0, max, "ab\n") : "", code = sym_string("new", 1, max, "ab\n");
	uint64_t limit = ~0ull;
	if( fault == 1 ) {
		// a file where the directory should be
		sym_assume(sub and not exists);
		vfs_put((prefix + "/d").c_str(), "", 0);
	}
	else if( exists ) {
		vfs_mkdir(dir.c_str());
		vfs_put(path.c_str(), old.data(), old.size());
	}
	if( fault == 2 ) {
		// a directory where the file should be
		sym_assume(not exists);
		vfs_mkdir(path.c_str());
	}
	vfs_put(other.c_str(), "x", 1);
	vfs_reset_counters();
	if( fault == 3 ) limit = sym_value(sym_u64("limit", 8, 0, max));
	vfs_faults(fault == 1, limit);
	bool thrown = false;
	try { binder::update_source_file(prefix, name, code); }
	catch( std::exception const & ) { thrown = true; }
	vfs_faults(0, ~0ull);
	string now = content(path);
	bool same = sym_value(exists and old == code);
	if( not thrown ) check(vfs_exists(path.c_str()) and now == code, "content-is-what-was-generated"), sym_reach(same ? "up-to-date" : "written");
	else sym_reach("reported");
	if( thrown ) check(fault != 0 and not same, "no-error-without-fault");
	if( same ) check(not vfs_writes(path.c_str()), "not-written-when-up-to-date");
	check(not vfs_writes(other.c_str()) and content(other) == "x", "other-files-untouched");
	if( not thrown ) observe(now);
	observe(thrown ? "thrown" : "returned");
}

// whole program, files can not grow beyond a symbolic size
static void whole(unsigned which)
{
	string h = "#pragma once\nnamespace n { void f(int); struct A {}; }\nnamespace m { void g(int); }\n";
	std::vector<string> args = {"--bind", "", "--skip-line-number"};
	if( which == 2 ) args.push_back("--single-file");
	static const char *names[] = {"", "root.cpp", "root.sources", "root.modules"};
	unsigned full = pick("full", 4);
	uint64_t limit = full ? 8000 : sym_u64("limit", 16, 0, sym_param("maxlimit", 8000));
	string device = out_dir() + "/" + names[full];
	before_main = [&]() {
		if( full ) vfs_full(device.c_str());
		else vfs_faults(0, limit);
	};
	Result r = run(h, "", args);
	vfs_faults(0, ~0ull);
	if( full and not sym_mode() ) unlink(device.c_str());
	bool failed = r.thrown or r.rc;
	if( not failed ) {
		check(r.code.size() > 2 and (which == 2 ? has(r.code, "\n// Modules list file: @/out/root.modules\n// m n \n") : r.code.compare(r.code.size() - 2, 2, "}\n") == 0) and has(r.code, "PYBIND11_MODULE(root, root_module)"), "root-module-complete");
		if( which == 1 ) {
			check(r.sources == "root.cpp\nh.cpp\nh_1.cpp\n" and r.modules == "m n ", "lists-complete");
			check(r.files.size() == 2 and has(r.files[0].second, "\"f\"") and has(r.files[0].second, "\"A\"") and has(r.files[1].second, "\"g\""), "files-complete");
			for( auto &f : r.files ) check(f.second.size() > 2 and f.second.compare(f.second.size() - 3, 3, "\n}\n") == 0, "files-complete");
		}
		else check(has(r.code, "\"f\"") and has(r.code, "\"A\"") and has(r.code, "\"g\""), "files-complete");
		sym_reach("complete");
	}
	else sym_reach("reported");
	check(not failed or full or limit < 6000, "no-error-without-fault");
	if( full ) check(failed == (which == 1 or full == 1), "full-device-reported"), sym_reach("full");
	observe(failed ? "failed" : r.all);
}

extern "C" void harness_main()
{
	unsigned which = sym_param("which", 0);
	if( which == 0 ) update();
	else whole(which);
}
