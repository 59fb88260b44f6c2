#include "common.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include "piecewise_lut.h"
#include "colour_conversion.h"
#include <algorithm>
#include <map>
#include <memory>
#include <thread>

using std::make_shared;
using std::shared_ptr;
using namespace dcp;

static shared_ptr<TransferFunction> curve(In& in)
{
	auto const n = in.str();
	if (n == "none") return {};
	if (n == "gamma") return make_shared<GammaTransferFunction>(in.d());
	if (n == "identity") return make_shared<IdentityTransferFunction>();
	if (n == "slog3") return make_shared<SGamut3TransferFunction>();
	auto const p = in.d();
	auto const t = in.d();
	auto const a = in.d();
	auto const b = in.d();
	return make_shared<ModifiedGammaTransferFunction>(p, t, a, b);
}

static void put(Out& out, std::vector<double> const& v)
{
	out.i(v.size());
	for (auto x: v) out.d(x);
}

int main()
{
	Ops ops;
	ops["table"] = [](In& in, Out& out) {
		auto f = curve(in);
		auto const from = in.d();
		auto const to = in.d();
		auto const bits = in.i();
		put(out, f->double_lut(from, to, bits, in.b()));
	};
	// a table asked for after others
	ops["again"] = [](In& in, Out& out) {
		struct Ask { double from, to; int bits; bool inverse; int scale; };
		auto get = [&in]() { Ask a; a.from = in.d(); a.to = in.d(); a.bits = in.i(); a.inverse = in.b(); a.scale = in.i(); return a; };
		auto const ints = in.b();
		auto const d = get();
		auto const was = get();
		auto const was_int = get();
		GammaTransferFunction f(2.2);
		f.double_lut(was.from, was.to, was.bits, was.inverse);
		f.int_lut(was_int.from, was_int.to, was_int.bits, was_int.inverse, was_int.scale);
		if (ints) out.is(f.int_lut(d.from, d.to, d.bits, d.inverse, d.scale));
		else put(out, f.double_lut(d.from, d.to, d.bits, d.inverse));
	};
	ops["piecewise"] = [](In& in, Out& out) {
		auto const boundary = in.d();
		auto const low = in.i();
		auto const high = in.i();
		auto const inverse = in.b();
		auto const scale = in.i();
		PiecewiseLUT2 l(make_shared<GammaTransferFunction>(2.2), boundary, low, high, inverse, scale);
		out.i(l.lookup(in.d()));
	};
	auto point = [](In& in) { auto const x = in.d(); auto const y = in.d(); return Chromaticity(x, y); };
	auto cells = [](Out& out, boost::numeric::ublas::matrix<double> const& m) {
		out.i(m.size1() * m.size2());
		for (size_t i = 0; i < m.size1(); ++i) for (size_t j = 0; j < m.size2(); ++j) out.d(m(i, j));
	};
	auto primaries = [point](In& in) {
		ColourConversion c;
		c.set_red(point(in));
		c.set_green(point(in));
		c.set_blue(point(in));
		c.set_white(point(in));
		return c;
	};
	ops["to_xyz"] = [=](In& in, Out& out) { cells(out, primaries(in).rgb_to_xyz()); };
	ops["inverse"] = [=](In& in, Out& out) { auto c = primaries(in); cells(out, c.rgb_to_xyz()); cells(out, c.xyz_to_rgb()); };
	ops["bradford"] = [=](In& in, Out& out) {
		ColourConversion c;
		c.set_red(Chromaticity(0.64, 0.33));
		c.set_green(Chromaticity(0.3, 0.6));
		c.set_blue(Chromaticity(0.15, 0.06));
		c.set_white(point(in));
		auto const a = point(in);
		if (in.b()) c.set_adjusted_white(a);
		cells(out, c.bradford());
	};
	auto state = [](Out& out, ColourConversion const& c) {
		std::vector<double> p;
		for (auto const& q: { c.red(), c.green(), c.blue(), c.white(), c.adjusted_white().get_value_or(Chromaticity(0, 0)) }) {
			p.push_back(q.x);
			p.push_back(q.y);
		}
		put(out, p);
		out.b(static_cast<bool>(c.adjusted_white()));
		out.i(static_cast<int>(c.yuv_to_rgb()));
	};
	ops["preset"] = [=](In& in, Out& out) {
		typedef ColourConversion const& (*Preset)();
		std::map<std::string, Preset> presets = {
			{ "srgb", &ColourConversion::srgb_to_xyz }, { "rec601", &ColourConversion::rec601_to_xyz }, { "rec709", &ColourConversion::rec709_to_xyz },
			{ "p3_dci", &ColourConversion::p3_dci_to_xyz }, { "p3_d65", &ColourConversion::p3_d65_to_xyz }, { "p3_d60", &ColourConversion::p3_d60_to_xyz },
			{ "rec1886", &ColourConversion::rec1886_to_xyz }, { "rec2020", &ColourConversion::rec2020_to_xyz }, { "s_gamut3", &ColourConversion::s_gamut3_to_xyz }
		};
		auto const& c = presets.at(in.str())();
		state(out, c);
		for (auto f: { c.in(), c.out() }) {
			auto v = f->double_lut(0, 1, 4, false);
			auto const w = f->double_lut(0, 1, 4, true);
			v.insert(v.end(), w.begin(), w.end());
			put(out, v);
		}
	};
	ops["params"] = [=](In& in, Out& out) {
		std::vector<Chromaticity> p;
		for (int i = 0; i < 6; ++i) p.push_back(point(in));
		std::vector<shared_ptr<const TransferFunction>> f;
		for (int i = 1; i < 5; ++i) f.push_back(make_shared<GammaTransferFunction>(i));
		auto const adjusted = in.b();
		auto const yuv = static_cast<YUVToRGB>(in.i());
		auto const yuv2 = static_cast<YUVToRGB>(in.i());
		boost::optional<Chromaticity> a;
		if (adjusted) a = p[4];
		ColourConversion c(f[0], yuv, p[0], p[1], p[2], p[3], a, f[1]);
		auto const set = in.str();
		if (set == "red") c.set_red(p[5]);
		if (set == "green") c.set_green(p[5]);
		if (set == "blue") c.set_blue(p[5]);
		if (set == "white") c.set_white(p[5]);
		if (set == "adjusted_white") c.set_adjusted_white(p[5]);
		if (set == "unset") c.unset_adjusted_white();
		if (set == "yuv_to_rgb") c.set_yuv_to_rgb(yuv2);
		if (set == "in") c.set_in(f[2]);
		if (set == "out") c.set_out(f[3]);
		state(out, c);
		out.i(std::find(f.begin(), f.end(), c.in()) - f.begin());
		out.i(std::find(f.begin(), f.end(), c.out()) - f.begin());
	};
	ops["same_curve"] = [](In& in, Out& out) {
		auto a = curve(in);
		auto b = curve(in);
		out.b(a->about_equal(b, in.d()));
	};
	ops["same_point"] = [=](In& in, Out& out) {
		auto const a = point(in);
		auto const b = point(in);
		out.b(a.about_equal(b, in.d()));
	};
	ops["same"] = [=](In& in, Out& out) {
		std::vector<Chromaticity> p[2];
		for (int s = 0; s < 2; ++s) for (int i = 0; i < 5; ++i) p[s].push_back(point(in));
		boost::optional<Chromaticity> w[2];
		for (int s = 0; s < 2; ++s) if (in.b()) w[s] = p[s][4];
		YUVToRGB y[2];
		for (int s = 0; s < 2; ++s) y[s] = static_cast<YUVToRGB>(in.i());
		shared_ptr<TransferFunction> f[4];
		for (int i = 0; i < 4; ++i) f[i] = curve(in);
		ColourConversion a(f[0], y[0], p[0][0], p[0][1], p[0][2], p[0][3], w[0], f[2]);
		ColourConversion b(f[1], y[1], p[1][0], p[1][1], p[1][2], p[1][3], w[1], f[3]);
		out.b(a.about_equal(b, in.d()));
	};
	// one function asked by several threads at once
	ops["race"] = [](In& in, Out& out) {
		auto const n = in.i();
		GammaTransferFunction f(1);
		std::vector<char> ok(n, 1);
		std::vector<std::thread> threads;
		for (int t = 0; t < n; ++t) {
			threads.push_back(std::thread([&f, &ok, t]() {
				for (int k = 0; k < 60; ++k) {
					auto const to = (k + 1) / 64.0;
					auto const& d = f.double_lut(0, to, 2, k % 2);
					auto const& i = f.int_lut(0, to, 2, k % 2, 6400);
					if (d.size() != 4 || i.size() != 4 || d[3] != to || i[3] != (k + 1) * 100) ok[t] = 0;
				}
			}));
		}
		for (auto& t: threads) t.join();
		bool all = true;
		for (auto k: ok) all = all && k;
		out.b(all);
	};
	return serve(ops);
}
