#include "common.h"
#include "local_time.h"
#include "utc_offset.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <sys/time.h>

using namespace dcp;
using namespace boost;

/* the clock, while it is set */
static bool stopped = false;
static time_t instant;

extern "C" time_t time(time_t* t) noexcept
{
	static auto real = reinterpret_cast<time_t (*)(time_t*)>(dlsym(RTLD_NEXT, "time"));
	auto const r = stopped ? instant : real(nullptr);
	if (t) *t = r;
	return r;
}

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
	static auto real = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
	if (!stopped || id != CLOCK_REALTIME) return real(id, t);
	t->tv_sec = instant; t->tv_nsec = 0;
	return 0;
}

extern "C" int gettimeofday(struct timeval* t, void* z) noexcept
{
	static auto real = reinterpret_cast<int (*)(struct timeval*, void*)>(dlsym(RTLD_NEXT, "gettimeofday"));
	if (!stopped) return real(t, z);
	t->tv_sec = instant; t->tv_usec = 0;
	return 0;
}

static LocalTime get(In& in)
{
	int y = in.i(), mo = in.i(), d = in.i(), h = in.i(), mi = in.i(), s = in.i(), ms = in.i(), oh = in.i(), om = in.i();
	return LocalTime(posix_time::ptime(gregorian::date(y, mo, d), posix_time::time_duration(h, mi, s, ms * 1000)), UTCOffset(oh, om));
}

static void put(Out& out, LocalTime const& t)
{
	out.i(t.year()); out.i(t.month()); out.i(t.day()); out.i(t.hour()); out.i(t.minute()); out.i(t.second()); out.i(t.millisecond());
	out.str(t.as_string(true, true));
}

int main()
{
	Ops ops;
	ops["cmp"] = [](In& in, Out& out) {
		auto a = get(in); auto b = get(in);
		out.b(a < b); out.b(a <= b); out.b(a > b); out.b(a >= b); out.b(a == b); out.b(a != b);
	};
	ops["timet"] = [](In& in, Out& out) { out.i(get(in).as_time_t()); };
	ops["fmt"] = [](In& in, Out& out) { auto a = get(in); bool ms = in.b(), tz = in.b(); out.str(a.as_string(ms, tz)); };
	ops["parts"] = [](In& in, Out& out) {
		auto a = get(in); bool s = in.b(), ms = in.b(); out.str(a.date()); out.str(a.time_of_day(s, ms));
	};
	ops["days"] = [](In& in, Out& out) { auto a = get(in); a.add_days(in.i()); put(out, a); };
	ops["months"] = [](In& in, Out& out) { auto a = get(in); a.add_months(in.i()); put(out, a); };
	ops["minutes"] = [](In& in, Out& out) { auto a = get(in); a.add_minutes(in.i()); put(out, a); };
	ops["addms"] = [](In& in, Out& out) { auto a = get(in); a.add(posix_time::milliseconds(in.i())); put(out, a); };
	ops["set"] = [](In& in, Out& out) {
		auto a = get(in); int y = in.i(), m = in.i(), d = in.i(), oh = in.i(), om = in.i();
		a.set_year(y); a.set_month(m); a.set_day(d); a.set_offset(UTCOffset(oh, om)); put(out, a);
	};
	ops["parse"] = [](In& in, Out& out) {
		LocalTime t(in.str());
		out.i(t.year()); out.i(t.month()); out.i(t.day()); out.i(t.hour()); out.i(t.minute()); out.i(t.second()); out.i(t.millisecond());
		out.str(t.as_string(true, true));
	};
	ops["round"] = [](In& in, Out& out) {
		auto a = get(in);
		bool ms = in.b();
		LocalTime b(a.as_string(ms, true));
		out.i(b.year()); out.i(b.month()); out.i(b.day()); out.i(b.hour()); out.i(b.minute()); out.i(b.second()); out.i(b.millisecond());
		out.str(b.as_string(true, true));
	};
	ops["asn1utc"] = [](In& in, Out& out) { auto t = LocalTime::from_asn1_utc_time(in.str()); put(out, t); };
	ops["asn1gen"] = [](In& in, Out& out) { auto t = LocalTime::from_asn1_generalized_time(in.str()); put(out, t); };
	ops["tm"] = [](In& in, Out& out) {
		struct tm x;
		memset(&x, 0, sizeof x);
		x.tm_year = in.i(); x.tm_mon = in.i(); x.tm_mday = in.i(); x.tm_hour = in.i(); x.tm_min = in.i(); x.tm_sec = in.i();
		LocalTime t(x);
		out.i(t.year()); out.i(t.month()); out.i(t.day()); out.i(t.hour()); out.i(t.minute()); out.i(t.second()); out.i(t.millisecond());
	};
	ops["six"] = [](In& in, Out& out) {
		int y = in.i(), mo = in.i(), d = in.i(), h = in.i(), mi = in.i(), oh = in.i(), om = in.i();
		LocalTime t(y, mo, d, h, mi, UTCOffset(oh, om));
		put(out, t);
	};
	ops["here"] = [](In& in, Out& out) {
		struct tm x;
		memset(&x, 0, sizeof x);
		x.tm_year = in.i() - 1900; x.tm_mon = in.i() - 1; x.tm_mday = in.i(); x.tm_hour = in.i(); x.tm_min = in.i(); x.tm_sec = in.i();
		int const ms = in.i(), zone = in.i();
		auto const how = in.str();
		char tz[32];
		snprintf(tz, sizeof tz, "XXX%s%d:%02d", zone > 0 ? "-" : "+", abs(zone) / 60, abs(zone) % 60);
		setenv("TZ", tz, 1);
		tzset();
		auto y = x;
		instant = timegm(&y) - zone * 60;
		stopped = true;
		posix_time::ptime p(gregorian::date(x.tm_year + 1900, x.tm_mon + 1, x.tm_mday), posix_time::time_duration(x.tm_hour, x.tm_min, x.tm_sec, ms * 1000));
		try {
			auto t = how == "now" ? LocalTime() : how == "tm" ? LocalTime(x) : LocalTime(p);
			stopped = false;
			put(out, t);
		} catch (...) {
			stopped = false;
			throw;
		}
	};
	ops["ptime"] = [](In& in, Out& out) { put(out, get(in)); };
	ops["offset"] = [](In& in, Out& out) {
		int h = in.i(), m = in.i();
		UTCOffset o;
		o.set_hour(h);
		o.set_minute(m);
		out.i(o.hour()); out.i(o.minute());
	};
	ops["offeq"] = [](In& in, Out& out) {
		int a = in.i(), b = in.i(), c = in.i(), d = in.i();
		UTCOffset x(a, b), y(c, d);
		out.i(x.hour()); out.i(x.minute()); out.b(x == y); out.b(x != y);
	};
	return serve(ops);
}
