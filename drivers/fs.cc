// Requests to the file system are recorded by stand-ins for boost::filesystem's own functions: nothing real is changed.
#include "common.h"
#include "filesystem.h"
#include <boost/filesystem.hpp>
#include <set>

using std::string;
namespace bfs = boost::filesystem;
typedef bfs::path P;
typedef boost::system::error_code EC;

struct Call { string op; std::vector<string> paths; long long flags; };
static std::vector<Call> calls;
static bool fail = false;
static long long answer = 0;
static int type = 2;
static std::set<string> links;
static bool real = false;
static string cwd = "/c/wd";

static bool ask(string op, std::vector<string> paths, EC* ec, long long flags = 0)
{
	calls.push_back({op, paths, flags});
	if (fail) {
		EC e(5, boost::system::generic_category());
		if (!ec) throw bfs::filesystem_error("stand-in", e);
		*ec = e;
		return false;
	}
	if (ec) ec->clear();
	return true;
}

#define W(n) __wrap__ZN5boost10filesystem6detail##n
#define R(n) __real__ZN5boost10filesystem6detail##n
#define E PNS_6system10error_codeE
extern "C" {
uintmax_t W(10remove_allERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("remove_all", {p.string()}, e) ? answer : uintmax_t(-1); }
void W(11permissionsERKNS0_4pathENS0_5permsEPNS_6system10error_codeE)(P const& p, bfs::perms m, EC* e) { ask("permissions", {p.string()}, e, m); }
void W(11resize_fileERKNS0_4pathEmPNS_6system10error_codeE)(P const& p, uintmax_t n, EC* e) { ask("resize_file", {p.string()}, e, n); }
void W(12copy_symlinkERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("copy_symlink", {p.string(), q.string()}, e); }
P R(12current_pathEPNS_6system10error_codeE)(EC*);
void W(12current_pathERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { ask("set_current_path", {p.string()}, e); }
void W(14copy_directoryERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("copy_directory", {p.string(), q.string()}, e); }
void W(14create_symlinkERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("create_symlink", {p.string(), q.string()}, e); }
uintmax_t W(15hard_link_countERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("hard_link_count", {p.string()}, e) ? answer : uintmax_t(-1); }
std::time_t W(15last_write_timeERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("last_write_time", {p.string()}, e) ? answer : -1; }
void W(15last_write_timeERKNS0_4pathElPNS_6system10error_codeE)(P const& p, std::time_t t, EC* e) { ask("set_last_write_time", {p.string()}, e, t); }
bool W(16create_directoryERKNS0_4pathEPS3_PNS_6system10error_codeE)(P const& p, P const*, EC* e) { return ask("create_directory", {p.string()}, e) && answer; }
void W(16create_hard_linkERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("create_hard_link", {p.string(), q.string()}, e); }
bool W(18create_directoriesERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("create_directories", {p.string()}, e) && answer; }
void W(24create_directory_symlinkERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("create_directory_symlink", {p.string(), q.string()}, e); }
void W(4copyERKNS0_4pathES4_jPNS_6system10error_codeE)(P const& p, P const& q, unsigned int o, EC* e) { ask("copy", {p.string(), q.string()}, e, o); }
bool W(6removeERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("remove", {p.string()}, e) && answer; }
void W(6renameERKNS0_4pathES4_PNS_6system10error_codeE)(P const& p, P const& q, EC* e) { ask("rename", {p.string(), q.string()}, e); }
bool W(8is_emptyERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("is_empty", {p.string()}, e) && answer; }
bool W(9copy_fileERKNS0_4pathES4_jPNS_6system10error_codeE)(P const& p, P const& q, unsigned int o, EC* e) { return ask("copy_file", {p.string(), q.string()}, e, o) && answer; }
uintmax_t W(9file_sizeERKNS0_4pathEPNS_6system10error_codeE)(P const& p, EC* e) { return ask("file_size", {p.string()}, e) ? answer : uintmax_t(-1); }
}
// functions returning objects: C++ linkage, renamed
#define NAME(n) asm("__wrap__ZN5boost10filesystem6detail" n)
bfs::space_info space_(P const& p, EC* e) NAME("5spaceERKNS0_4pathEPNS_6system10error_codeE");
bfs::space_info space_(P const& p, EC* e)
{
	bfs::space_info s;
	s.capacity = s.free = s.available = uintmax_t(-1);
	if (ask("space", {p.string()}, e)) { s.capacity = answer; s.free = answer + 1; s.available = answer + 2; }
	return s;
}
P current_(EC* e) NAME("12current_pathEPNS_6system10error_codeE");
P current_(EC*) { return cwd; }
P complete_(P const& p, EC* e) NAME("15system_completeERKNS0_4pathEPNS_6system10error_codeE");
P complete_(P const& p, EC*) { return p; }
P absolute_(P const& p, P const& b, EC* e) NAME("8absoluteERKNS0_4pathES4_PNS_6system10error_codeE");
P absolute_(P const& p, P const& b, EC* e) { ask(b == cwd ? "absolute" : "absolute-elsewhere", {p.string()}, e); return "/re/sult"; }
P canonical_(P const& p, P const& b, EC* e) NAME("9canonicalERKNS0_4pathES4_PNS_6system10error_codeE");
P canonical_(P const& p, P const& b, EC* e) { ask(b == cwd ? "canonical" : "canonical-elsewhere", {p.string()}, e); return "/re/sult"; }
P weakly_(P const& p, P const& b, EC* e) NAME("16weakly_canonicalERKNS0_4pathES4_PNS_6system10error_codeE");
P weakly_(P const& p, P const&, EC* e) { ask("weakly_canonical", {p.string()}, e); return "/re/sult"; }
bfs::file_status status_(P const& p, EC* e) NAME("6statusERKNS0_4pathEPNS_6system10error_codeE");
bfs::file_status status_(P const& p, EC* e) { return ask("status", {p.string()}, e) ? bfs::file_status(bfs::file_type(type)) : bfs::file_status(bfs::status_error); }
bfs::file_status symlink_(P const& p, EC* e) NAME("14symlink_statusERKNS0_4pathEPNS_6system10error_codeE");
bfs::file_status symlink_(P const& p, EC* e)
{
	if (real) return bfs::file_status(links.count(p.string()) ? bfs::symlink_file : bfs::regular_file);
	return ask("symlink_status", {p.string()}, e) ? bfs::file_status(bfs::file_type(type)) : bfs::file_status(bfs::status_error);
}

template <class I> static void iterate(In&, Out& out, P dir, size_t n, size_t pos, std::map<string, int> const& index, size_t order)
{
	I i(dir);
	for (size_t k = 0; k < pos; ++k) ++i;
	bool const more = begin(i) != end(i);
	out.b(more);
	std::vector<long long> star, arrow, conv, next;
	auto id = [&](P const& p) { auto j = index.find(p.string()); return j == index.end() ? -1 : j->second; };
	if (more) {
		star.push_back(id((*i).path()));
		auto e = *i;
		P const& c = e;
		conv.push_back(id(c));
		I fresh(dir);
		for (size_t k = 0; k < pos; ++k) ++fresh;
		arrow = {id(fresh->path()), id(i->path())};
		I& r = ++i;
		bool const last = !(r != I());
		next = {last ? long(n) : id((*r).path()), &r == &i ? (last ? long(n) : id(i->path())) : -5};
	}
	out.is(star); out.is(arrow); out.is(conv); out.is(next);
}

int main()
{
	Ops ops;
	ops["fs"] = [](In& in, Out& out) {
		namespace df = dcp::filesystem;
		auto const f = in.tok();
		int const ec = in.i();
		fail = in.b(); answer = in.i(); type = in.i();
		bool const over = in.b();
		P const p = in.str(), q = in.str();
		calls.clear(); real = false; cwd = "/c/wd";
		EC e(99, boost::system::generic_category());
		std::vector<string> r;
		auto B = [&](bool b) { r = {b ? "1" : "0"}; };
		auto U = [&](uintmax_t u) { r = {std::to_string(u)}; };
		auto X = [&](P const& x) { Out t; t.str(x.string()); r = {t.r}; };
		bool thrown = false;
		string const k = f + std::to_string(ec);
		try {
			if (k == "exists0") B(df::exists(p));
			else if (k == "exists1") B(df::exists(p, e));
			else if (k == "is_directory0") B(df::is_directory(p));
			else if (k == "is_regular_file0") B(df::is_regular_file(p));
			else if (k == "is_empty0") B(df::is_empty(p));
			else if (k == "create_directory0") B(df::create_directory(p));
			else if (k == "create_directory1") B(df::create_directory(p, e));
			else if (k == "copy0") df::copy(p, q);
			else if (k == "copy_file0") df::copy_file(p, q);
			else if (k == "copy_file1") df::copy_file(p, q, e);
			else if (k == "copy_file2") df::copy_file(p, q, over ? df::CopyOptions::OVERWRITE_EXISTING : df::CopyOptions::NONE);
			else if (k == "create_directories0") B(df::create_directories(p));
			else if (k == "create_directories1") B(df::create_directories(p, e));
			else if (k == "absolute0") X(df::absolute(p));
			else if (k == "canonical0") X(df::canonical(p));
			else if (k == "remove0") B(df::remove(p));
			else if (k == "remove1") B(df::remove(p, e));
			else if (k == "remove_all0") U(df::remove_all(p));
			else if (k == "remove_all1") U(df::remove_all(p, e));
			else if (k == "file_size0") U(df::file_size(p));
			else if (k == "file_size1") U(df::file_size(p, e));
			else if (k == "current_path0") df::current_path(p);
			else if (k == "create_hard_link0") df::create_hard_link(p, q);
			else if (k == "create_hard_link1") df::create_hard_link(p, q, e);
			else if (k == "create_symlink1") df::create_symlink(p, q, e);
			else if (k == "space0") { auto s = df::space(p); r = {std::to_string(s.capacity), std::to_string(s.free), std::to_string(s.available)}; }
			else if (k == "last_write_time0") r = {std::to_string(df::last_write_time(p))};
			else if (k == "last_write_time1") r = {std::to_string(df::last_write_time(p, e))};
			else if (k == "hard_link_count0") U(df::hard_link_count(p));
			else if (k == "rename0") df::rename(p, q);
			else if (k == "rename1") df::rename(p, q, e);
			else exit(3);
		} catch (bfs::filesystem_error&) {
			thrown = true;
			r.clear();
		}
		out.b(thrown); out.i(e.value());
		out.i(r.size()); for (auto const& x: r) out.tok(x);
		out.i(calls.size());
		for (auto const& c: calls) { out.tok(c.op); out.i(c.paths.size()); for (auto const& x: c.paths) out.str(x); out.i(c.flags); }
	};
	ops["cwd"] = [](In& in, Out& out) { cwd = in.str(); calls.clear(); fail = false; out.str(dcp::filesystem::current_path().string()); out.i(calls.size()); };
	ops["lexical"] = [](In& in, Out& out) {
		P const p = in.str();
		auto const e = in.str();
		auto const before = p.string();
		if (in.b()) out.str(dcp::filesystem::extension(p)); else out.str(dcp::filesystem::change_extension(p, e).string());
		out.b(p.string() == before);
	};
	ops["iter"] = [](In& in, Out& out) {
		size_t const n = in.i(), pos = in.i();
		bool const rec = in.b();
		fail = false; real = true; links.clear();
		char t[] = "/tmp/verif-fs-XXXXXX";
		if (!mkdtemp(t)) exit(3);
		for (size_t k = 0; k < n; ++k) { auto f = fopen((string(t) + "/f" + std::to_string(k)).c_str(), "w"); if (f) fclose(f); }
		std::map<string, int> index;
		int k = 0;
		for (bfs::directory_iterator i(t), e; i != e; ++i) index[i->path().string()] = k++;
		try {
			if (rec) iterate<dcp::filesystem::recursive_directory_iterator>(in, out, t, n, pos, index, k);
			else iterate<dcp::filesystem::directory_iterator>(in, out, t, n, pos, index, k);
		} catch (...) {
			out.r = "exc other";
		}
		for (size_t j = 0; j < n; ++j) ::remove((string(t) + "/f" + std::to_string(j)).c_str());
		::remove(t);
	};
	ops["weak"] = [](In& in, Out& out) {
		P const p = in.str();
		auto n = in.i();
		links.clear();
		while (n-- > 0) links.insert(in.str());
		fail = false; real = true;
		out.str(dcp::filesystem::weakly_canonical(p).string());
	};
	return serve(ops);
}
