#include "common.h"
#include <algorithm>
#include <memory>
#include <vector>
#include "asdcp.h"
#include "key.h"

using namespace dcp;

namespace Kumu {
FortunaRNG::FortunaRNG() {}
FortunaRNG::~FortunaRNG() {}
byte_t const* FortunaRNG::FillRandom(byte_t* p, ui32_t n)
{
	for (ui32_t k = 0; k < n; ++k) {
		p[k] = (k * 7 + 3) & 0xff;
	}
	return p;
}
}

/* in a block of exactly the right size, so that a read beyond it is seen */
static Key make(In& in)
{
	auto v = in.is();
	std::unique_ptr<uint8_t[]> b(new uint8_t[v.size()]);
	std::copy(v.begin(), v.end(), b.get());
	Key k(b.get(), v.size());
	std::fill(b.get(), b.get() + v.size(), 0xa5);
	return k;
}

static void show(Out& out, Key const& k)
{
	out.i(k.length());
	out.is(std::vector<int>(k.value(), k.value() + k.length()));
	out.str(k.hex());
}

int main()
{
	Ops ops;
	ops["bytes"] = [](In& in, Out& out) { show(out, make(in)); };
	ops["text"] = [](In& in, Out& out) { show(out, Key(in.str())); };
	ops["random"] = [](In& in, Out& out) { show(out, Key(int(in.i()))); };
	ops["copy"] = [](In& in, Out& out) {
		std::unique_ptr<Key> a(new Key(make(in)));
		Key b(*a);
		a.reset();
		show(out, b);
	};
	ops["assign"] = [](In& in, Out& out) {
		Key a = make(in);
		std::unique_ptr<Key> b(new Key(make(in)));
		a = *b;
		Key c = *b;
		out.b(*b == c);
		b.reset();
		show(out, a);
	};
	ops["self"] = [](In& in, Out& out) {
		Key a = make(in);
		Key& b = a;
		a = b;
		show(out, a);
	};
	ops["equal"] = [](In& in, Out& out) {
		Key a = make(in), b = make(in);
		out.b(a == b); out.b(a != b);
	};
	return serve(ops);
}
