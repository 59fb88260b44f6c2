#include "common.h"
#include "outside.h"
#include "types.h"

using namespace dcp;

template <class T>
static int which(T v, std::vector<T> const& all)
{
	for (size_t i = 0; i < all.size(); ++i) {
		if (all[i] == v) return i;
	}
	return -1;
}

int main()
{
	Ops ops;
	std::vector<Effect> const effects = { Effect::NONE, Effect::BORDER, Effect::SHADOW };
	std::vector<Direction> const directions = { Direction::LTR, Direction::RTL, Direction::TTB, Direction::BTT };
	std::vector<Marker> const markers = {
		Marker::FFOC, Marker::LFOC, Marker::FFTC, Marker::LFTC, Marker::FFOI, Marker::LFOI,
		Marker::FFEC, Marker::LFEC, Marker::FFMC, Marker::LFMC, Marker::FFOB, Marker::LFOB
	};
	std::vector<Status> const statuses = { Status::FINAL, Status::TEMP, Status::PRE };
	std::vector<Formulation> const formulations = {
		Formulation::MODIFIED_TRANSITIONAL_1, Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, Formulation::DCI_ANY, Formulation::DCI_SPECIFIC
	};
	std::vector<Luminance::Unit> const units = { Luminance::Unit::CANDELA_PER_SQUARE_METRE, Luminance::Unit::FOOT_LAMBERT };
	ops["w_effect"] = [&](In& in, Out& out) { out.str(effect_to_string(effects[in.i()])); };
	ops["r_effect"] = [&](In& in, Out& out) { out.i(which(string_to_effect(in.str()), effects)); };
	ops["w_direction"] = [&](In& in, Out& out) { out.str(direction_to_string(directions[in.i()])); };
	ops["r_direction"] = [&](In& in, Out& out) { out.i(which(string_to_direction(in.str()), directions)); };
	ops["w_marker"] = [&](In& in, Out& out) { out.str(marker_to_string(markers[in.i()])); };
	ops["r_marker"] = [&](In& in, Out& out) { out.i(which(marker_from_string(in.str()), markers)); };
	ops["w_status"] = [&](In& in, Out& out) { out.str(status_to_string(statuses[in.i()])); };
	ops["r_status"] = [&](In& in, Out& out) { out.i(which(string_to_status(in.str()), statuses)); };
	ops["w_formulation"] = [&](In& in, Out& out) { out.str(formulation_to_string(formulations[in.i()])); };
	ops["r_formulation"] = [&](In& in, Out& out) { out.i(which(string_to_formulation(in.str()), formulations)); };
	ops["w_luminance-unit"] = [&](In& in, Out& out) { out.str(Luminance::unit_to_string(units[in.i()])); };
	ops["r_luminance-unit"] = [&](In& in, Out& out) { out.i(which(Luminance::string_to_unit(in.str()), units)); };
	ops["eq_Size"] = [](In& in, Out& out) {
		int aw = in.i(), ah = in.i(), bw = in.i(), bh = in.i();
		Size a(aw, ah), b(bw, bh);
		out.b(a == b); out.b(a != b);
	};
	ops["eq_Fraction"] = [](In& in, Out& out) {
		int an = in.i(), ad = in.i(), bn = in.i(), bd = in.i();
		Fraction a(an, ad), b(bn, bd);
		out.b(a == b); out.b(a != b);
	};
	ops["eq_Colour"] = [](In& in, Out& out) {
		int ar = in.i(), ag = in.i(), ab = in.i(), br = in.i(), bg = in.i(), bb = in.i();
		Colour a(ar, ag, ab), b(br, bg, bb);
		out.b(a == b); out.b(a != b);
	};
	ops["lt_fraction"] = [](In& in, Out& out) {
		int an = in.i(), ad = in.i(), bn = in.i(), bd = in.i();
		out.b(Fraction(an, ad) < Fraction(bn, bd));
	};
	ops["r_fraction"] = [](In& in, Out& out) { Fraction f(in.str()); out.i(f.numerator); out.i(f.denominator); };
	ops["w_fraction"] = [](In& in, Out& out) { int n = in.i(), d = in.i(); out.str(Fraction(n, d).as_string()); };
	ops["w_colour"] = [](In& in, Out& out) { int r = in.i(), g = in.i(), b = in.i(); Colour c(r, g, b); out.str(c.to_rgb_string()); out.str(c.to_argb_string()); };
	ops["r_colour"] = [](In& in, Out& out) { Colour c(in.str()); out.i(c.r); out.i(c.g); out.i(c.b); };
	ops["luminance"] = [&](In& in, Out& out) {
		double v = in.d(); int u = in.i();
		Luminance x(v, units[u]);
		out.d(x.value()); out.i(which(x.unit(), units)); out.d(x.value_in_foot_lamberts());
	};
	ops["eq_luminance"] = [&](In& in, Out& out) {
		double av = in.d(); int au = in.i(); double bv = in.d(); int bu = in.i();
		out.b(Luminance(av, units[au]) == Luminance(bv, units[bu]));
	};
	return serve(ops);
}
