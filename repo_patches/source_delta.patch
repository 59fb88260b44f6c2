From 7ab9600c8adc3f874629cf9c5af5b29502e4d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:01 +0000
Subject: [PATCH 01/22] fix: compare both times in UTC when ordering LocalTimes
 by minute

operator< compared the minute of one time converted to UTC with the
minute of the other in its own time zone.  Two times whose UTC offsets
have different minutes could then be ordered wrongly.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From 25aee7324ec4d797b39a088e19f1a11683bfc1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:47 +0000
Subject: [PATCH 02/22] fix: write a minus sign for UTC offsets between -00:59
 and -00:01

The sign was taken from the hour alone, so an offset of minus thirty
minutes was written as +00:30 and read back as a different time.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..2308693 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", ((_offset.hour() < 0 || _offset.minute() < 0) ? "-" : "+"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From e7a9705019f7b85c04e6312db6e9d176b890294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:27 +0000
Subject: [PATCH 03/22] fix: read fractional seconds with fewer than three
 digits or followed by Z

"59.5" was read as 5 milliseconds rather than 500, and a Z directly
after one or two digits was taken to be part of the fraction and the
time refused.
---
 src/local_time.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 2308693..4caa508 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -150,15 +150,16 @@ LocalTime::LocalTime (string s)
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_of("+-Z", pos);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
 		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		auto const digits = std::min(static_cast<size_t>(3), length - 1);
+		_millisecond = lexical_cast<int>(s.substr(pos + 1, digits));
+		for (auto i = digits; i < 3; ++i) {
+			_millisecond *= 10;
+		}
 		pos = end;
 	} else {
 		_millisecond = 0;
-- 
2.43.0


From a0359a678429d828f21aa773e6640bbc844afa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:10 +0000
Subject: [PATCH 04/22] fix: take the UTC offset into account in
 LocalTime::as_time_t

The result was the local clock reading counted from the epoch, so times
which compare equal could give different values.
---
 src/local_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 4caa508..f058bc7 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -423,9 +423,10 @@ LocalTime::as_utc() const
 time_t
 LocalTime::as_time_t() const
 {
-	DCP_ASSERT(_year >= 1970);
+	auto const utc = as_utc();
+	DCP_ASSERT(utc._year >= 1970);
 
-	auto const since_epoch = boost::gregorian::date(_year, _month, _day) - boost::gregorian::date(1970, boost::gregorian::Jan, 1);
-	return ((((static_cast<time_t>(since_epoch.days()) * 24) + _hour) * 60) + _minute) * 60 + _second;
+	auto const since_epoch = boost::gregorian::date(utc._year, utc._month, utc._day) - boost::gregorian::date(1970, boost::gregorian::Jan, 1);
+	return ((((static_cast<time_t>(since_epoch.days()) * 24) + utc._hour) * 60) + utc._minute) * 60 + utc._second;
 }
 
-- 
2.43.0


From d300539daf4775fe6440ee4a95ef08f15248a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:33 +0000
Subject: [PATCH 05/22] fix: move assignment of a File

Assigning to a File used to compare whether the two files were open, rather
than whether they were the same object.  When both were open (or neither was)
nothing was assigned.  The path was never assigned either.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From 7bfca2c6c7f47233314f88da3a36c6b6b094fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:31 +0000
Subject: [PATCH 06/22] fix: keep weakly_canonical() paths absolute when ..
 follows the root directory

---
 src/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..e987b37 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -160,7 +160,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 			boost::system::error_code ec;
 			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
 				result /= part;
-			} else {
+			} else if (result.has_relative_path()) {
 				result = result.parent_path();
 			}
 		} else if (part != ".") {
-- 
2.43.0


From 337fb398e2f692d5778580235a55ad8f4342c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:42 +0000
Subject: [PATCH 07/22] fix: keep a cancelled ScopeGuard cancelled when it is
 moved

---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From 55155b465b1261f03149fc6c92f21c70d843f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:18:01 +0000
Subject: [PATCH 08/22] fix: use the scaled input in S-Log3 tables of part of
 the range

---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..5f5d0d0 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From 65989f81ae04823e761e91df6625077af953c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:18:01 +0000
Subject: [PATCH 09/22] fix: change from linear to logarithmic S-Log3 at
 0.01125

---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 5f5d0d0..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
-- 
2.43.0


From ef8d0f1598c274184211c43e4b80c4fcc87ec1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:51 +0000
Subject: [PATCH 10/22] fix: comparing colour conversions with no input
 transfer function

---
 src/colour_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colour_conversion.cc b/src/colour_conversion.cc
index c09c15b..8ab6bb7 100644
--- a/src/colour_conversion.cc
+++ b/src/colour_conversion.cc
@@ -233,7 +233,9 @@ ColourConversion::ColourConversion(
 bool
 ColourConversion::about_equal(ColourConversion const & other, float epsilon) const
 {
-	if (!_in->about_equal(other._in, epsilon) ||
+	if ((!_in && other._in) ||
+	    (_in && !other._in) ||
+	    (_in && !_in->about_equal(other._in, epsilon)) ||
 	    _yuv_to_rgb != other._yuv_to_rgb ||
 	    !_red.about_equal(other._red, epsilon) ||
 	    !_green.about_equal(other._green, epsilon) ||
-- 
2.43.0


From d6a1c4b4740da3eb545114abf44d4a45564a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:13 +0000
Subject: [PATCH 11/22] fix: refuse badly-formed fractions and time zones when
 reading a time

Text after a trailing Z, a time zone without a colon between hours and
minutes and a fraction of a second which is not made up of digits were
all ignored.
---
 src/local_time.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index f058bc7..2f4fc0e 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -154,6 +154,9 @@ LocalTime::LocalTime (string s)
 		if (end == std::string::npos) {
 			end = s.length();
 		}
+		if (s.find_first_not_of("0123456789", pos + 1) < end) {
+			throw TimeFormatError(s);
+		}
 		auto const length = end - pos;
 		auto const digits = std::min(static_cast<size_t>(3), length - 1);
 		_millisecond = lexical_cast<int>(s.substr(pos + 1, digits));
@@ -166,11 +169,11 @@ LocalTime::LocalTime (string s)
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (pos != s.length() && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-		if ((s.length() - pos) != 6) {
+		if ((s.length() - pos) != 6 || s[pos + 3] != ':') {
 			throw TimeFormatError(s);
 		}
 
-- 
2.43.0


From b29a38813befbeeb4b68e8f59b263adb66b3953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:56 +0000
Subject: [PATCH 12/22] fix: carry into seconds when rounding a number of
 seconds to a time

---
 src/dcp_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..65f7a64 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,10 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e == tcr) {
+		e = 0;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From f571545ab22d3b381695d868182acd8f11ab649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:56 +0000
Subject: [PATCH 13/22] fix: count seconds and fractions of seconds when
 dividing times

---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 65f7a64..1c5b3c3 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -326,9 +326,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From de3d6077d4c14378e15db8ca2da72d4482b5a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:56 +0000
Subject: [PATCH 14/22] fix: overflow when comparing times with large timecode
 rates

---
 src/dcp_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 1c5b3c3..6ab9b95 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -176,7 +176,7 @@ Time::Time (string time, optional<int> tcr_)
 bool
 dcp::operator== (Time const & a, Time const & b)
 {
-	return (a.h == b.h && a.m == b.m && a.s == b.s && (a.e * b.tcr) == (b.e * a.tcr));
+	return (a.h == b.h && a.m == b.m && a.s == b.s && (int64_t(a.e) * b.tcr) == (int64_t(b.e) * a.tcr));
 }
 
 
@@ -216,7 +216,7 @@ dcp::operator< (Time const & a, Time const & b)
 		return a.s < b.s;
 	}
 
-	return (a.e * b.tcr) < (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) < (int64_t(b.e) * a.tcr);
 }
 
 
@@ -235,7 +235,7 @@ dcp::operator> (Time const & a, Time const & b)
 		return a.s > b.s;
 	}
 
-	return (a.e * b.tcr) > (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) > (int64_t(b.e) * a.tcr);
 }
 
 
-- 
2.43.0


From 003de3a2c07dda46a43cb619863d0214dedb4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:20 +0000
Subject: [PATCH 15/22] fix: write unsigned characters and short integers as
 unsigned

---
 src/locale_convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 2c7c74e..053d444 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -51,7 +51,7 @@ string
 dcp::locale_convert (unsigned char x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hhd", x);
+	snprintf (buffer, sizeof(buffer), "%hhu", x);
 	return buffer;
 }
 
@@ -61,7 +61,7 @@ string
 dcp::locale_convert (unsigned short int x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hd", x);
+	snprintf (buffer, sizeof(buffer), "%hu", x);
 	return buffer;
 }
 
-- 
2.43.0


From 87a58a45326030fa8049b621155e228d3a6dafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:08 +0000
Subject: [PATCH 16/22] fix: avoid overflow when comparing fractions

---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 3b79be2..7902917 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -115,7 +115,7 @@ dcp::operator< (Fraction const& a, Fraction const& b)
 {
 	DCP_ASSERT(a.denominator > 0);
 	DCP_ASSERT(b.denominator > 0);
-	return a.numerator * b.denominator < b.numerator * a.denominator;
+	return int64_t(a.numerator) * b.denominator < int64_t(b.numerator) * a.denominator;
 }
 
 
-- 
2.43.0


From bb0888c864dceb5d6cb6534ba56325f4e8174656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:10 +0000
Subject: [PATCH 17/22] fix: keep arguments of a message in their places when
 one is empty

---
 src/compose.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compose.hpp b/src/compose.hpp
index 41a4075..e354b93 100644
--- a/src/compose.hpp
+++ b/src/compose.hpp
@@ -122,18 +122,16 @@ namespace StringPrivate
   {
     os += dcp::locale_convert<std::string> (obj);
 
-    if (!os.empty()) {		// manipulators don't produce output
-      for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
-	output_list::iterator pos = i->second;
-	++pos;
+    for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
+      output_list::iterator pos = i->second;
+      ++pos;
 
-	output.insert(pos, os);
-      }
-
-      os = "";
-      ++arg_no;
+      output.insert(pos, os);
     }
 
+    os = "";
+    ++arg_no;
+
     return *this;
   }
 
-- 
2.43.0


From e7db6256abe7bfa16157d7de7197fd0adce9d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:57:25 +0000
Subject: [PATCH 18/22] fix: read digits after the point of an Interop time as
 a fraction of a second

---
 src/dcp_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 6ab9b95..f731b3a 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -131,7 +131,7 @@ Time::Time (string time, optional<int> tcr_)
 			if (bs[1].empty() || bs[1].length() > 3) {
 				boost::throw_exception (ReadError (String::compose ("unrecognised time specification %1; %2 has bad length", time, bs[1])));
 			}
-			e = raw_convert<int> (bs[1]);
+			e = raw_convert<int>((bs[1] + "00").substr(0, 3));
 			tcr = 1000;
 		} else if (b.size() == 4) {
 			/* HH:MM:SS:EE[E] */
-- 
2.43.0


From 35cbd0eb5c22efe501d642caa646b42989335f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:42 +0000
Subject: [PATCH 19/22] fix: clip integer samples to the largest positive
 24-bit value

---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From 58ce16885187a7fdd6e56c887b4ee9a75f4ebcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:42 +0000
Subject: [PATCH 20/22] fix: keep the sign of 16-bit samples read from a sound
 frame

---
 src/sound_frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_frame.cc b/src/sound_frame.cc
index 4d90c9c..6260351 100644
--- a/src/sound_frame.cc
+++ b/src/sound_frame.cc
@@ -70,7 +70,7 @@ SoundFrame::get (int channel, int frame) const
 	case 16:
 	{
 		uint8_t const * d = data() + (frame * _channels * 2) + (channel * 2);
-		return d[0] | (d[1] << 8);
+		return static_cast<int16_t>(d[0] | (d[1] << 8));
 	}
 	default:
 		DCP_ASSERT(false);
-- 
2.43.0


From c30dbda7c1c60b592d5e3fa4c3b77987644e25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:43 +0000
Subject: [PATCH 21/22] fix: put the part of the asset ID that the packet index
 names into each sync packet

---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From 28e041ae74c6c41da971be249378c8b0963be266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:07:16 +0000
Subject: [PATCH 22/22] fix: make room for the new value when a key is assigned

---
 src/key.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cc b/src/key.cc
index f11f632..22fac6e 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -99,6 +99,9 @@ Key::operator= (Key const & other)
 		return *this;
 	}
 
+	auto value = new uint8_t[other._length];
+	delete[] _value;
+	_value = value;
 	_length = other._length;
 	memcpy (_value, other._value, _length);
 	return *this;
-- 
2.43.0

