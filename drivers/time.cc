#include "common.h"
#include "dcp_time.h"
#include "locale_convert.h"
#include "raw_convert.h"

using namespace dcp;

static Time get(In& in)
{
	int h = in.i(), m = in.i(), s = in.i(), e = in.i(), tcr = in.i();
	return Time(h, m, s, e, tcr);
}

static void put(Out& out, Time const& t)
{
	out.i(t.h); out.i(t.m); out.i(t.s); out.i(t.e); out.i(t.tcr);
}

int main()
{
	Ops ops;
	ops["cmp"] = [](In& in, Out& out) {
		auto a = get(in); auto b = get(in);
		out.b(a == b); out.b(a != b); out.b(a < b); out.b(a <= b); out.b(a > b); out.b(a >= b);
	};
	ops["add"] = [](In& in, Out& out) { auto a = get(in); auto b = get(in); put(out, a + b); };
	ops["sub"] = [](In& in, Out& out) { auto a = get(in); auto b = get(in); put(out, a - b); };
	ops["div"] = [](In& in, Out& out) { auto a = get(in); auto b = get(in); out.d(a / b); };
	ops["units"] = [](In& in, Out& out) {
		auto a = get(in); int r = in.i();
		out.i(a.as_editable_units()); out.i(a.as_editable_units_floor(r)); out.i(a.as_editable_units_ceil(r)); out.d(a.as_seconds());
	};
	ops["rebase"] = [](In& in, Out& out) { auto a = get(in); put(out, a.rebase(in.i())); };
	ops["seconds"] = [](In& in, Out& out) { double s = in.d(); int t = in.i(); put(out, Time(s, t)); };
	ops["frame"] = [](In& in, Out& out) { int f = in.i(); double r = in.d(); int t = in.i(); put(out, Time(f, r, t)); };
	ops["text"] = [](In& in, Out& out) { auto a = get(in); out.str(a.as_string(Standard::SMPTE)); out.str(a.as_string(Standard::INTEROP)); };
	ops["parse"] = [](In& in, Out& out) {
		auto t = in.str(); int r = in.i();
		boost::optional<int> tcr;
		if (r > 0) tcr = r;
		put(out, Time(t, tcr));
	};
	ops["read_uchar"] = [](In& in, Out& out) { out.u(raw_convert<unsigned char>(in.str())); };
	ops["read_ushort"] = [](In& in, Out& out) { out.u(raw_convert<unsigned short>(in.str())); };
	ops["read_int"] = [](In& in, Out& out) { out.i(raw_convert<int>(in.str())); };
	ops["read_long"] = [](In& in, Out& out) { out.i(raw_convert<long>(in.str())); };
	ops["read_ulong"] = [](In& in, Out& out) { out.u(raw_convert<unsigned long>(in.str())); };
	ops["read_llong"] = [](In& in, Out& out) { out.i(raw_convert<long long>(in.str())); };
	ops["read_ullong"] = [](In& in, Out& out) { out.u(raw_convert<unsigned long long>(in.str())); };
	ops["trip_uchar"] = [](In& in, Out& out) { out.u(locale_convert<unsigned char>(locale_convert<std::string>(static_cast<unsigned char>(in.u())))); };
	ops["trip_ushort"] = [](In& in, Out& out) { out.u(locale_convert<unsigned short>(locale_convert<std::string>(static_cast<unsigned short>(in.u())))); };
	ops["trip_int"] = [](In& in, Out& out) { out.i(locale_convert<int>(locale_convert<std::string>(static_cast<int>(in.i())))); };
	ops["trip_uint"] = [](In& in, Out& out) { out.u(locale_convert<unsigned int>(locale_convert<std::string>(static_cast<unsigned int>(in.u())))); };
	ops["trip_long"] = [](In& in, Out& out) { out.i(locale_convert<long>(locale_convert<std::string>(static_cast<long>(in.i())))); };
	ops["trip_ulong"] = [](In& in, Out& out) { out.u(locale_convert<unsigned long>(locale_convert<std::string>(static_cast<unsigned long>(in.u())))); };
	ops["trip_llong"] = [](In& in, Out& out) { out.i(locale_convert<long long>(locale_convert<std::string>(static_cast<long long>(in.i())))); };
	ops["write_uchar"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<unsigned char>(in.u()))); };
	ops["write_ushort"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<unsigned short>(in.u()))); };
	ops["write_int"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<int>(in.i()))); };
	ops["write_uint"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<unsigned int>(in.u()))); };
	ops["write_long"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<long>(in.i()))); };
	ops["write_ulong"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<unsigned long>(in.u()))); };
	ops["write_llong"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<long long>(in.i()))); };
	ops["write_ullong"] = [](In& in, Out& out) { out.str(locale_convert<std::string>(static_cast<unsigned long long>(in.u()))); };
	return serve(ops);
}
