#include "common.h"
#include <algorithm>
#include <memory>
#include <vector>
#include <boost/optional.hpp>
#include "asdcp.h"
#include "main_sound_configuration.h"

using namespace dcp;

/* labels of the dictionary are their number, 16 times */
static std::vector<int> label;

namespace ASDCP {
byte_t const* Dictionary::ul(MDD_t n) const
{
	static byte_t b[16];
	std::fill(b, b + 16, n);
	return b;
}
UL::UL(byte_t const* p) { label.assign(p, p + 16); }
}

static void show(Out& out, MainSoundConfiguration const& c)
{
	out.str(c.as_string());
	out.b(c.valid());
	if (!c.valid()) {
		int refused = 0;
		try { c.field(); } catch (MainSoundConfigurationError&) { ++refused; }
		try { c.channels(); } catch (MainSoundConfigurationError&) { ++refused; }
		try { c.mapping(0); } catch (MainSoundConfigurationError&) { ++refused; }
		out.i(refused);
		return;
	}
	out.i(int(c.field()));
	out.i(c.channels());
	for (int k = 0; k < c.channels(); ++k) {
		auto m = c.mapping(k);
		out.i(m ? int(*m) : -1);
	}
}

int main()
{
	Ops ops;
	ops["id"] = [](In& in, Out& out) {
		auto c = mca_id_to_channel(in.str());
		out.i(c ? int(*c) : -1);
	};
	ops["channel"] = [](In& in, Out& out) {
		auto const c = Channel(in.i());
		auto const f = MCASoundField(in.i());
		out.str(channel_to_mca_id(c, f));
		out.str(channel_to_mca_name(c, f));
		auto const back = mca_id_to_channel(channel_to_mca_id(c, f));
		out.i(back ? int(*back) : -1);
	};
	ops["label"] = [](In& in, Out& out) {
		auto const c = Channel(in.i());
		ASDCP::Dictionary d;
		channel_to_mca_universal_label(c, MCASoundField(in.i()), &d);
		out.is(label);
	};
	ops["built"] = [](In& in, Out& out) {
		auto const f = MCASoundField(in.i());
		auto const n = in.i();
		MainSoundConfiguration c(f, in.i());
		auto set = [&in, &c]() {
			for (int left = in.i(); left > 0; --left) {
				auto const i = in.i();
				c.set_mapping(i, Channel(in.i()));
			}
		};
		set();
		c.set_channels(n);
		set();
		show(out, c);
	};
	ops["read"] = [](In& in, Out& out) {
		show(out, MainSoundConfiguration(in.str()));
	};
	return serve(ops);
}
