#include "common.h"
#include "content_kind.h"
#include "exceptions.h"
#include "h_align.h"
#include "name_format.h"
#include "subtitle_standard.h"
#include "v_align.h"

using namespace dcp;
using std::string;

static HAlign const hs[] = { HAlign::LEFT, HAlign::CENTER, HAlign::RIGHT };
static VAlign const vs[] = { VAlign::TOP, VAlign::CENTER, VAlign::BOTTOM };
static SubtitleStandard const stds[] = { SubtitleStandard::INTEROP, SubtitleStandard::SMPTE_2007, SubtitleStandard::SMPTE_2010, SubtitleStandard::SMPTE_2014 };

template <class T, size_t N> int position(T const (&a)[N], T v)
{
	for (size_t i = 0; i < N; ++i) if (a[i] == v) return i;
	return -1;
}

int main()
{
	Ops ops;
	ops["h2s"] = [](In& in, Out& out) { out.str(halign_to_string(hs[in.i()])); };
	ops["v2s"] = [](In& in, Out& out) { out.str(valign_to_string(vs[in.i()])); };
	ops["s2h"] = [](In& in, Out& out) { out.i(position(hs, string_to_halign(in.str()))); };
	ops["s2v"] = [](In& in, Out& out) { out.i(position(vs, string_to_valign(in.str()))); };
	ops["kind"] = [](In& in, Out& out) {
		auto k = ContentKind::from_name(in.str());
		out.str(k.name());
		out.b(static_cast<bool>(k.scope()));
		out.str(k.scope().get_value_or(""));
	};
	ops["kinds"] = [](In&, Out& out) {
		auto a = ContentKind::all();
		out.i(a.size() * 2);
		for (auto k: a) { out.str(k.name()); out.str(k.scope().get_value_or("")); }
	};
	ops["kindeq"] = [](In& in, Out& out) {
		auto a = in.str(); bool as = in.b(); auto asc = in.str();
		auto b = in.str(); bool bs = in.b(); auto bsc = in.str();
		ContentKind x(a, as ? boost::optional<string>(asc) : boost::optional<string>());
		ContentKind y(b, bs ? boost::optional<string>(bsc) : boost::optional<string>());
		out.b(x == y); out.b(x != y); out.b(x == x);
	};
	ops["std"] = [](In& in, Out& out) { auto s = stds[in.i()]; out.b(uses_baseline(s)); out.b(uses_bounding_box(s)); };
	ops["name"] = [](In& in, Out& out) {
		auto spec = in.str();
		NameFormat::Map m;
		for (int n = in.i(); n > 0; --n) { char k = char(in.i()); m[k] = in.str(); }
		auto suffix = in.str(); auto ignore = in.str();
		NameFormat f(spec);
		out.str(f.get(m, suffix, ignore));
		out.str(f.specification());
	};
	ops["nameeq"] = [](In& in, Out& out) {
		auto a = in.str(); auto b = in.str();
		NameFormat x(a), y;
		y.set_specification(b);
		out.b(x == y);
		out.str(y.specification());
	};
	return serve(ops);
}
