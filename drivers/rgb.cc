#include "common.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>
#include <vector>
#include "colour_conversion.h"
#include "openjpeg_image.h"
#include "piecewise_lut.h"
#include "rgb_xyz.h"
#include "transfer_function.h"

using namespace dcp;
using std::vector;

/* pictures in blocks of exactly the right size, so that an access beyond one is seen */
static Size dims(0, 0);
static vector<vector<int>> planes;

namespace dcp {
OpenJPEGImage::OpenJPEGImage(Size s)
{
	dims = s;
	planes.clear();
	for (int c = 0; c < 3; ++c) {
		planes.push_back(vector<int>(s.width * s.height, -77));
		planes.back().shrink_to_fit();
	}
}
OpenJPEGImage::~OpenJPEGImage() {}
int* OpenJPEGImage::data(int c) const { return planes[c].data(); }
Size OpenJPEGImage::size() const { return dims; }
}

static double const DCI = 48.0 / 52.37;

static double unit(double x)
{
	return x < 0 ? 0 : x > 1 ? 1 : x;
}

static ColourConversion const& conversion(int k)
{
	static vector<ColourConversion> all;
	if (all.empty()) {
		typedef ColourConversion C;
		all = { C::srgb_to_xyz(), C::rec601_to_xyz(), C::rec709_to_xyz(), C::p3_dci_to_xyz(), C::p3_d65_to_xyz(), C::p3_d60_to_xyz(), C::rec1886_to_xyz(), C::rec2020_to_xyz(), C::s_gamut3_to_xyz() };
		auto other = all[0];
		other.set_adjusted_white(Chromaticity(0.35, 0.36));
		all.push_back(other);
	}
	return all[k % all.size()];
}

static void convert(std::string const& op, In& in, Out& out)
{
	int const W = in.i();
	int const H = in.i();
	int const pitch = in.i();
	auto const& c = conversion(in.i());
	auto const data = in.is();
	vector<int> got, want;
	bool rest = true;

	if (op == "planes" || op == "packed") {
		vector<uint16_t> rgb((H - 1) * pitch + 3 * W, 0xbeef);
		for (int y = 0; y < H; ++y) {
			for (int k = 0; k < 3 * W; ++k) {
				rgb[y * pitch + k] = data[y * 3 * W + k];
			}
		}
		auto const before = rgb;
		auto const lut = c.in()->double_lut(0, 1, 12, false);
		auto const m = c.rgb_to_xyz();
		auto const b = c.bradford();
		PiecewiseLUT2 codes(c.out(), 0.062, 16, 12, true, 4095);
		for (int q = 0; q < W * H; ++q) {
			double s[3];
			for (int k = 0; k < 3; ++k) {
				s[k] = lut[data[q * 3 + k] >> 4];
			}
			for (int r = 0; r < 3; ++r) {
				double v = 0;
				for (int k = 0; k < 3; ++k) {
					v += s[k] * ((b(r, 0) * m(0, k) + b(r, 1) * m(1, k) + b(r, 2) * m(2, k)) * DCI);
				}
				want.push_back(codes.lookup(unit(v)));
			}
		}
		auto const p = reinterpret_cast<uint8_t const*>(rgb.data());
		if (op == "planes") {
			auto image = rgb_to_xyz(p, Size(W, H), pitch * 2, c);
			rest = image->size().width == W && image->size().height == H;
			for (int q = 0; q < W * H; ++q) {
				for (int k = 0; k < 3; ++k) {
					got.push_back(image->data(k)[q]);
				}
			}
		} else {
			vector<uint16_t> xyz(3 * W * H, 0xbeef);
			rgb_to_xyz(p, xyz.data(), Size(W, H), pitch * 2, c);
			got.assign(xyz.begin(), xyz.end());
		}
		rest = rest && rgb == before;
	} else {
		auto image = std::make_shared<OpenJPEGImage>(Size(W, H));
		for (int q = 0; q < W * H; ++q) {
			for (int k = 0; k < 3; ++k) {
				planes[k][q] = data[q * 3 + k];
			}
		}
		auto const before = planes;
		auto const lut = c.out()->double_lut(0, 1, 12, false);
		auto const back = c.in()->double_lut(0, 1, 16, true);
		auto const m = c.xyz_to_rgb();
		vector<double> light;
		for (int q = 0; q < W * H; ++q) {
			double s[3];
			for (int k = 0; k < 3; ++k) {
				s[k] = lut[std::min(4095, std::max(0, int(data[q * 3 + k])))] / DCI;
			}
			for (int r = 0; r < 3; ++r) {
				light.push_back(unit((s[0] * m(r, 0)) + (s[1] * m(r, 1)) + (s[2] * m(r, 2))));
			}
		}
		if (op == "rgb") {
			vector<uint16_t> rgb((H - 1) * pitch + 3 * W, 0xbeef);
			int notes = 0;
			boost::optional<NoteHandler> note;
			if (data[0] % 2) {
				note = NoteHandler([&notes](NoteType, std::string) { ++notes; });
			}
			xyz_to_rgb(image, c, reinterpret_cast<uint8_t*>(rgb.data()), pitch * 2, note);
			int const outside = std::count_if(data.begin(), data.end(), [](int v) { return v < 0 || v > 4095; });
			rest = notes == (note ? outside : 0);
			for (int k = 0; k < int(rgb.size()); ++k) {
				if (k % pitch < 3 * W) {
					got.push_back(rgb[k]);
				} else {
					rest = rest && rgb[k] == 0xbeef;
				}
			}
			for (auto v: light) {
				want.push_back(lrint(back[lrint(v * 65535)] * 65535));
			}
		} else {
			vector<uint8_t> argb((H - 1) * pitch + 4 * W, 0x5a);
			xyz_to_rgba(image, c, argb.data(), pitch);
			for (int k = 0; k < int(argb.size()); ++k) {
				if (k % pitch < 4 * W) {
					got.push_back(argb[k]);
				} else {
					rest = rest && argb[k] == 0x5a;
				}
			}
			for (int q = 0; q < W * H; ++q) {
				for (int k = 2; k >= 0; --k) {
					want.push_back(int(back[lrint(light[q * 3 + k] * 65535)] * 255));
				}
				want.push_back(255);
			}
		}
		rest = rest && planes == before;
	}

	out.i(rest);
	out.i(got.size());
	for (auto v: got) {
		out.i(v);
	}
	for (auto v: want) {
		out.i(v);
	}
}

int main()
{
	Ops ops;
	for (std::string op: { "planes", "packed", "rgb", "rgba" }) {
		ops[op] = [op](In& in, Out& out) { convert(op, in, out); };
	}
	return serve(ops);
}
