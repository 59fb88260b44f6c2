#include "common.h"
#include <algorithm>
#include <list>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <boost/shared_array.hpp>
#include "asdcp.h"
#define private public
#define protected public
#include "sound_asset_writer.h"
#undef private
#undef protected
#include "language_tag.h"
#include "metadata.h"
#include "util.h"

using namespace dcp;

namespace dcp {
MXFMetadata::MXFMetadata() {}
LanguageTag::LanguageTag(std::string) {}
std::string LanguageTag::as_string() const { return "en"; }
std::string make_uuid() { return "b30bd6a8-2f6d-4e07-bc1e-d28ba2c1ed39"; }
void maybe_throw_from_asdcplib(Kumu::Result_t, boost::filesystem::path) {}
}

template <class T> std::vector<std::vector<T>> samples(In& in, int channels)
{
	std::vector<std::vector<T>> r(channels);
	int n = in.i();
	for (auto& c: r) {
		for (int k = 0; k < n; ++k) {
			c.push_back(std::is_same<T, float>::value ? T(in.d()) : T(in.i()));
		}
	}
	return r;
}

template <class T> void give(SoundAssetWriter& w, std::vector<std::vector<T>>& d, int channels, int frames)
{
	std::vector<T const*> p;
	for (auto& c: d) {
		p.push_back(c.data());
	}
	w.write(p.data(), channels, frames);
}

static SoundAsset asset(int channels, int rate)
{
	return SoundAsset(Fraction(rate, 1), 48000, channels, LanguageTag("en"), Standard::SMPTE);
}

template <class T> void write(In& in, Out& out)
{
	int ch = in.i();
	store = Store();
	store.samples = in.i();
	int dc = in.i();
	bool const sync = in.b();
	auto first = samples<T>(in, ch);
	auto second = samples<T>(in, ch);
	auto a = asset(ch, 24);
	SoundAssetWriter w(&a, "f", {}, sync, false);
	give<T>(w, first, dc, first[0].size());
	if (!second[0].empty()) {
		give<T>(w, second, dc, second[0].size());
	}
	out.b(w.finalize());
	out.i(store.frames); out.i(a.intrinsic_duration()); out.i(store.bytes.size()); out.i(store.finished);
	out.is(store.bytes);
}

/* Go on as if n frames had been written (n is a multiple of 4 more than there really are) */
static void skip(SoundAssetWriter& w, int n)
{
	w._frames_written = n;
}

static void frame(SoundAssetWriter& w)
{
	store.bytes.clear();
	std::vector<std::vector<int32_t>> d;
	give<int32_t>(w, d, 0, store.samples);
}

/* The bits carried by channel 14 of the last frame */
static std::vector<int> signal()
{
	std::vector<int> r;
	for (size_t k = 13 * 3; k + 3 <= store.bytes.size(); k += 4 * 14 * 3) {
		int v = store.bytes[k] | (store.bytes[k + 1] << 8) | (store.bytes[k + 2] << 16);
		if (v >= 1 << 23) {
			v -= 1 << 24;
		}
		r.push_back(abs(v) > 0.05 * (1 << 23));
	}
	return r;
}

int main()
{
	Ops ops;
	ops["write"] = [](In& in, Out& out) {
		if (in.b()) write<float>(in, out); else write<int32_t>(in, out);
	};
	ops["one"] = [](In& in, Out& out) {
		bool const real = in.b();
		store = Store();
		auto a = asset(1, 24);
		SoundAssetWriter w(&a, "f", {}, false, false);
		if (real) {
			std::vector<std::vector<float>> d{{float(in.d())}};
			give<float>(w, d, 1, 1);
		} else {
			std::vector<std::vector<int32_t>> d{{int32_t(in.i())}};
			give<int32_t>(w, d, 1, 1);
		}
		out.i(store.frames);
		out.is(store.bytes);
	};
	ops["refused"] = [](In& in, Out&) {
		std::vector<std::string> const cases = { "no samples", "fewer than none", "too many channels", "after the end", "ended twice", "open", "write", "finalize" };
		auto c = cases[in.i()];
		int32_t const x = in.i();
		int const n = in.i();
		store = Store();
		store.samples = 2;
		store.failing = c;
		auto a = asset(2, 24);
		SoundAssetWriter w(&a, "f", {}, false, false);
		std::vector<std::vector<int32_t>> d(c == "too many channels" ? 3 : 2, std::vector<int32_t>(3, x));
		give<int32_t>(w, d, d.size(), c == "no samples" ? 0 : c == "fewer than none" ? n : 1);
		w.finalize();
		if (c == "after the end") {
			give<int32_t>(w, d, 2, 1);
		} else if (c == "ended twice") {
			w.finalize();
		}
	};
	ops["nothing"] = [](In&, Out& out) {
		store = Store();
		store.samples = 2;
		auto a = asset(2, 24);
		SoundAssetWriter w(&a, "f", {}, false, false);
		out.b(w.finalize());
		out.i(store.frames); out.i(store.opened); out.i(a.intrinsic_duration());
	};
	ops["read"] = [](In& in, Out& out) {
		store = Store();
		store.bits = in.i();
		store.channels = in.i();
		int const channel = in.i(), moment = in.i(), n = in.i();
		for (auto b: in.is()) {
			store.frame.push_back(b);
		}
		Kumu::FileReaderFactory f;
		ASDCP::PCM::MXFReader r(f);
		SoundFrame s(&r, n, std::make_shared<DecryptionContext>(boost::none, Standard::SMPTE), false);
		out.i(store.asked); out.i(s.get(channel, moment)); out.i(s.samples()); out.i(s.channels()); out.i(s.bits()); out.i(s.size());
	};
	ops["packets"] = [](In& in, Out& out) {
		int const rate = in.i();
		int const n = in.i();
		char id[64];
		int p = 0;
		for (int k = 0; k < 16; ++k) {
			p += sprintf(id + p, "%02x%s", int(in.i()), k == 3 || k == 5 || k == 7 || k == 9 ? "-" : "");
		}
		store = Store();
		store.samples = 48000 / rate;
		auto a = asset(14, rate);
		a._id = id;
		SoundAssetWriter w(&a, "f", {}, true, false);
		if (n < 40) {
			for (int k = 0; k < n; ++k) {
				frame(w);
			}
		} else {
			int const before = 4 + (n - 1) % 4;
			for (int k = 0; k < before; ++k) {
				frame(w);
			}
			skip(w, n - 1);
			frame(w);
		}
		frame(w);
		out.is(signal());
	};
	ops["refusedsync"] = [](In& in, Out&) {
		int const c = in.i(), f = in.i(), ch = in.i();
		store = Store();
		SoundAsset a(Fraction(24, 1), c == 0 ? f : 48000, c == 1 ? ch : 14, LanguageTag("en"), c == 2 ? Standard::INTEROP : Standard::SMPTE);
		SoundAssetWriter w(&a, "f", {}, true, false);
	};
	return serve(ops);
}
