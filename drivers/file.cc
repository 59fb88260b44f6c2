// stdio is replaced by the functions below (linker option --wrap), so that no file is touched and every outcome of
// a call can be had on demand
#include "common.h"
#include "array_data.h"
#include "data.h"
#include "file.h"
#include <boost/filesystem.hpp>
#include <cerrno>
#include <cstring>
#include <memory>

using namespace dcp;
using std::string;

struct Stream
{
	string path, mode;
	int closed = 0;
	bool opened = false;
	std::vector<unsigned char> content, out;
	size_t pos = 0;
};

static std::vector<std::unique_ptr<Stream>> streams;
static std::vector<std::pair<bool, int>> opens;      // outcome of the n-th fopen
static std::vector<long long> plan;                  // most items each transfer moves; then no limit
static size_t planned = 0;
static std::vector<string> calls;
static long long answer = 0;
static bool failing = false;
static bool misuse = false;
static std::vector<unsigned char> content;           // of any file that is opened

static void reset()
{
	streams.clear(); opens.clear(); plan.clear(); calls.clear(); content.clear();
	planned = 0; answer = 0; failing = misuse = false;
}

static Stream* S(FILE* f)
{
	for (auto& s: streams) if (reinterpret_cast<FILE*>(s.get()) == f) { if (!s->opened || s->closed) misuse = true; return s.get(); }
	misuse = true;
	return nullptr;
}

static int id(FILE* f)
{
	if (!f) return -1;
	for (size_t i = 0; i < streams.size(); ++i) if (reinterpret_cast<FILE*>(streams[i].get()) == f) return i;
	return -2;
}

static size_t limit(size_t n)
{
	size_t m = planned < plan.size() ? std::min<size_t>(n, plan[planned]) : n;
	++planned;
	return m;
}

static void log(string s) { calls.push_back(s); }

extern "C" {
FILE* __wrap_fopen(char const* p, char const* m)
{
	streams.emplace_back(new Stream);
	auto& s = *streams.back();
	s.path = p; s.mode = m;
	size_t n = streams.size() - 1;
	if (n < opens.size() && !opens[n].first) { errno = opens[n].second; return nullptr; }
	s.opened = true;
	s.content = content;
	return reinterpret_cast<FILE*>(&s);
}
FILE* __wrap_fopen64(char const* p, char const* m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* f) { auto s = S(f); if (s) ++s->closed; return 0; }
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f)
{
	auto s = S(f);
	if (!s) return 0;
	log("fread " + std::to_string(size) + " " + std::to_string(n));
	if (size != 1) return answer;
	size_t m = std::min(limit(n), s->content.size() - s->pos);
	if (m) memcpy(p, s->content.data() + s->pos, m);
	s->pos += m;
	return m;
}
size_t __wrap_fwrite(void const* p, size_t size, size_t n, FILE* f)
{
	auto s = S(f);
	if (!s) return 0;
	log("fwrite " + std::to_string(size) + " " + std::to_string(n));
	if (size != 1) return answer;
	size_t m = limit(n);
	s->out.insert(s->out.end(), static_cast<unsigned char const*>(p), static_cast<unsigned char const*>(p) + m);
	return m;
}
int __wrap_feof(FILE* f) { S(f); log("feof"); return answer; }
int __wrap_ferror(FILE* f) { S(f); log("ferror"); return failing ? 1 : answer; }
char* __wrap_fgets(char* p, int n, FILE* f) { S(f); log("fgets " + std::to_string(n)); return answer ? p : nullptr; }
int __wrap_fputs(char const* p, FILE* f) { S(f); log("fputs " + string(p)); return answer; }
int __wrap_fseek(FILE* f, long o, int w) { S(f); log("fseek " + std::to_string(o) + " " + std::to_string(w)); return answer; }
long __wrap_ftell(FILE* f) { S(f); log("ftell"); return answer; }
int __wrap_fseeko(FILE* f, off_t o, int w) { return __wrap_fseek(f, o, w); }
off_t __wrap_ftello(FILE* f) { return __wrap_ftell(f); }
int __wrap_fseeko64(FILE* f, off_t o, int w) { return __wrap_fseek(f, o, w); }
off_t __wrap_ftello64(FILE* f) { return __wrap_ftell(f); }
}

static std::vector<std::pair<string, string>> renames;
// boost::filesystem::detail::rename(path const&, path const&, error_code*)
extern "C" void __wrap__ZN5boost10filesystem6detail6renameERKNS0_4pathES4_PNS_6system10error_codeE(
	boost::filesystem::path const& a, boost::filesystem::path const& b, boost::system::error_code*) { renames.push_back({a.string(), b.string()}); log("rename"); }

static long long file_size = 0;
// boost::filesystem::detail::file_size(path const&, error_code*)
extern "C" uintmax_t __wrap__ZN5boost10filesystem6detail9file_sizeERKNS0_4pathEPNS_6system10error_codeE(boost::filesystem::path const&, boost::system::error_code*) { return file_size; }

static void show(Out& out, File& f)
{
	out.i(id(f.get())); out.b(static_cast<bool>(f)); out.str(f.path().string()); out.i(f.open_error());
}

static void prepare(File& f, int what) { if (what == 1) f.close(); else if (what == 2) f.take(); }

static void closes(Out& out) { out.i(streams.size()); for (auto& s: streams) out.i(s->closed); }

class Bytes : public Data
{
public:
	Bytes(std::vector<long long> const& v) : _d(v.begin(), v.end()) {}
	uint8_t const* data() const override { return _d.data(); }
	uint8_t* data() override { return _d.data(); }
	int size() const override { return _d.size(); }
	std::vector<uint8_t> _d;
};

int main()
{
	Ops ops;
	ops["open"] = [](In& in, Out& out) {
		reset();
		auto path = in.str(), mode = in.str();
		bool ok = in.b(); int err = in.i();
		opens = {{ok, err}};
		{
			File f(path, mode);
			show(out, f);
			out.i(streams.size());
			out.str(streams.empty() ? "" : streams[0]->path);
			out.str(streams.empty() ? "" : streams[0]->mode);
		}
		closes(out);
		out.b(misuse);
	};
	// op: 0 move construction, 1 move assignment, 2 self assignment, 3 close, 4 take
	ops["own"] = [](In& in, Out& out) {
		reset();
		int op = in.i();
		bool ok1 = in.b(); int e1 = in.i(); int w1 = in.i();
		bool ok2 = in.b(); int e2 = in.i(); int w2 = in.i();
		opens = {{ok1, e1}, {ok2, e2}};
		FILE* given = nullptr;
		{
			File a("a", "r");
			File b("b", "w");
			prepare(a, w1);
			prepare(b, w2);
			std::unique_ptr<File> c;
			switch (op) {
			case 0: c.reset(new File(std::move(b))); break;
			case 1: a = std::move(b); break;
			case 2: { File& r = a; a = std::move(r); break; }
			case 3: a.close(); break;
			case 4: given = a.take(); break;
			}
			out.i(id(given));
			show(out, c ? *c : a);
			show(out, b);
			closes(out);
		}
		closes(out);
		out.b(misuse);
	};
	ops["read"] = [](In& in, Out& out) {
		reset();
		auto content = in.is();
		auto n = in.i();
		auto p = in.is();
		File f("a", "r");
		streams[0]->content.assign(content.begin(), content.end());
		plan = p;
		std::vector<unsigned char> buffer(n + 2, 170);
		bool thrown = false;
		try { f.checked_read(buffer.data(), n); } catch (std::exception&) { thrown = true; }
		out.b(thrown);
		out.is(buffer);
		out.i(streams[0]->pos);
		out.b(misuse);
	};
	ops["write"] = [](In& in, Out& out) {
		reset();
		auto d = in.is();
		plan = in.is();
		failing = in.b();
		std::vector<unsigned char> data(d.begin(), d.end());
		bool thrown = false;
		{
			File f("a", "w");
			try { f.checked_write(data.data(), data.size()); } catch (std::exception&) { thrown = true; }
		}
		out.b(thrown);
		out.is(streams[0]->out);
		out.b(misuse);
	};
	// plain wrappers: op, returned value, two arguments, state of the file
	ops["wrap"] = [](In& in, Out& out) {
		reset();
		int op = in.i();
		auto r = in.i(); auto x = in.i(); auto y = in.i(); int what = in.i();
		File f("a", "r+");
		prepare(f, what);
		answer = r;
		char buf[64] = "hello";
		long long got = 0;
		switch (op) {
		case 0: got = f.write(buf, 2, x); break;
		case 1: got = f.read(buf, 2, x); break;
		case 2: got = f.eof(); break;
		case 3: got = f.gets(buf, x) == buf; break;
		case 4: got = f.puts(buf); break;
		case 5: got = f.seek(x, y); break;
		case 6: got = f.tell(); break;
		case 7: got = f.error(); break;
		case 8: f.checked_read(buf, 3); break;
		case 9: f.checked_write(buf, 3); break;
		}
		out.i(got);
		out.i(calls.size());
		for (auto& c: calls) out.str(c);
		out.b(misuse);
	};
	ops["datawrite"] = [](In& in, Out& out) {
		reset();
		renames.clear();
		Bytes d(in.is());
		bool ok = in.b();
		plan = in.is();
		bool via = in.b();
		opens = {{ok, 13}};
		bool thrown = false;
		try { if (via) d.write_via_temp("temp", "final"); else d.write("final"); } catch (std::exception&) { thrown = true; }
		out.b(thrown);
		out.i(streams.size());
		for (auto& s: streams) { out.str(s->path); out.str(s->mode); out.is(s->out); out.i(s->closed); }
		out.i(renames.size());
		for (auto& r: renames) { out.str(r.first); out.str(r.second); }
		out.b(misuse);
		out.b(!renames.empty() && calls.back() == "rename");
	};
	// reading a whole file: its content, whether it opens, transfers, size the file system reports
	ops["arraydata"] = [](In& in, Out& out) {
		reset();
		auto c = in.is();
		content.assign(c.begin(), c.end());
		bool ok = in.b();
		plan = in.is();
		file_size = in.i();
		opens = {{ok, 13}};
		bool thrown = false;
		std::vector<long long> got;
		try { ArrayData d(boost::filesystem::path("a")); got.assign(d.data(), d.data() + d.size()); } catch (std::exception&) { thrown = true; }
		out.b(thrown);
		out.is(got);
		closes(out);
		out.b(misuse);
	};
	ops["dataeq"] = [](In& in, Out& out) {
		Bytes a(in.is()), b(in.is());
		out.b(a == b);
		out.b(a != b);
	};
	return serve(ops);
}
