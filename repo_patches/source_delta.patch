From 2451474b2b8748ed612c4ac019d6f43f09d28615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:19 +0000
Subject: [PATCH 01/36] fix: compare UTC minutes in LocalTime::operator<

The minute of the first time's UTC form was compared with the minute of
the second time's local form, so two times with different UTC offsets
could be ordered wrongly.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From bb48d0413b7770955cfa753d7dfa01f630e017c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:48 +0000
Subject: [PATCH 02/36] fix: compare variable Z positions in TextImage's
 operator==

Two images which differed only in their variable Z positions were
reported as equal.
---
 src/text_image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text_image.cc b/src/text_image.cc
index 119a630..26c96a6 100644
--- a/src/text_image.cc
+++ b/src/text_image.cc
@@ -124,6 +124,7 @@ dcp::operator==(TextImage const & a, TextImage const & b)
 		a.v_position() == b.v_position() &&
 		a.v_align() == b.v_align() &&
 		a.z_position() == b.z_position() &&
+		a.variable_z_positions() == b.variable_z_positions() &&
 		a.fade_up_time() == b.fade_up_time() &&
 		a.fade_down_time() == b.fade_down_time()
 		);
-- 
2.43.0


From 27c716c50df09b36b644b4e1799b441cf996124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:48 +0000
Subject: [PATCH 03/36] fix: compare open captions and closed subtitles in
 Reel::equals

Reels whose open caption or closed subtitle assets differed, or of which
only one had them, were reported as equal.
---
 src/reel.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..abd8da4 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -255,6 +255,15 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note (NoteType::ERROR, "Reel: open caption assets differ");
+		return false;
+	}
+
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
 	if ((_main_markers && !other->_main_markers) || (!_main_markers && other->_main_markers)) {
 		note (NoteType::ERROR, "Reel: one has markers and the other does not");
 		return false;
@@ -265,6 +274,16 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if (_closed_subtitles.size() != other->_closed_subtitles.size()) {
+		return false;
+	}
+
+	for (size_t k = 0; k < _closed_subtitles.size(); ++k) {
+		if (!_closed_subtitles[k]->equals(other->_closed_subtitles[k], opt, note)) {
+			return false;
+		}
+	}
+
 	if (_closed_captions.size() != other->_closed_captions.size()) {
 		return false;
 	}
-- 
2.43.0


From 8a508077a0280894a3d9317770832d81adea31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:48 +0000
Subject: [PATCH 04/36] fix: consider open captions and closed subtitles when
 dealing with encryption

A reel with an encrypted open caption or closed subtitle asset was not
reported as (partly) encrypted, and those assets were never given the
keys from a KDM so their content could not be read.
---
 src/reel.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index abd8da4..61a174c 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -315,6 +315,11 @@ bool
 Reel::any_encrypted () const
 {
 	auto ecc = false;
+	for (auto i: _closed_subtitles) {
+		if (i->encrypted()) {
+			ecc = true;
+		}
+	}
 	for (auto i: _closed_captions) {
 		if (i->encrypted()) {
 			ecc = true;
@@ -325,6 +330,7 @@ Reel::any_encrypted () const
 		(_main_picture && _main_picture->encrypted()) ||
 		(_main_sound && _main_sound->encrypted()) ||
 		(_main_subtitle && _main_subtitle->encrypted()) ||
+		(_main_caption && _main_caption->encrypted()) ||
 		ecc ||
 		(_atmos && _atmos->encrypted())
 		);
@@ -335,6 +341,11 @@ bool
 Reel::all_encrypted () const
 {
 	auto ecc = true;
+	for (auto i: _closed_subtitles) {
+		if (!i->encrypted()) {
+			ecc = false;
+		}
+	}
 	for (auto i: _closed_captions) {
 		if (!i->encrypted()) {
 			ecc = false;
@@ -345,6 +356,7 @@ Reel::all_encrypted () const
 		(!_main_picture || _main_picture->encrypted()) &&
 		(!_main_sound || _main_sound->encrypted()) &&
 		(!_main_subtitle || _main_subtitle->encrypted()) &&
+		(!_main_caption || _main_caption->encrypted()) &&
 		ecc &&
 		(!_atmos || _atmos->encrypted())
 	       );
@@ -379,6 +391,18 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 				smpte->smpte_asset()->set_key(i.key());
 			}
 		}
+		if (_main_caption) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_caption);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
+		for (auto j: _closed_subtitles) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
 		for (auto j: _closed_captions) {
 			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-- 
2.43.0


From d518c85e1ba2858c70026a516455ebf7df245945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:21 +0000
Subject: [PATCH 05/36] fix: write the sign of UTC offsets between -00:59 and
 -00:01

LocalTime::as_string() took the sign from the hours alone, so -00:30 was written as +00:30.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..2308693 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", ((_offset.hour() < 0 || _offset.minute() < 0) ? "-" : "+"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From 678c1b4ce5398c6a85de51ddd4fb361badbed189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:21 +0000
Subject: [PATCH 06/36] fix: read fractional seconds with fewer than 3 digits

LocalTime("2013-01-05T18:06:59.5+00:00") had 5ms rather than 500ms, and a short fraction followed by Z was rejected.
---
 src/local_time.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 2308693..504e887 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -150,15 +150,14 @@ LocalTime::LocalTime (string s)
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_of("+-Z", pos);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
 		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		auto fraction = s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1));
+		fraction.resize(3, '0');
+		_millisecond = lexical_cast<int>(fraction);
 		pos = end;
 	} else {
 		_millisecond = 0;
-- 
2.43.0


From 5d49e49545a5d721ee645c6f8662d864b8a8c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:53 +0000
Subject: [PATCH 07/36] fix: read times with UTC offsets of -12:00, +13:00 and
 +14:00

Such times failed an assertion in UTCOffset.  Other bad offsets, and bad numbers, now give TimeFormatError.
---
 src/local_time.cc | 15 +++++++++++++--
 src/utc_offset.cc |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 504e887..492a792 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -123,6 +123,7 @@ LocalTime::set_local_time_zone ()
 
 
 LocalTime::LocalTime (string s)
+try
 {
 	/* 2013-01-05T18:06:59[.frac][TZ]
 	 * Where .frac is fractional seconds
@@ -172,8 +173,14 @@ LocalTime::LocalTime (string s)
 			throw TimeFormatError(s);
 		}
 
-		_offset.set_hour(lexical_cast<int>(s.substr(pos + 1, 2)));
-		_offset.set_minute(lexical_cast<int>(s.substr(pos + 4, 2)));
+		auto const hour = lexical_cast<int>(s.substr(pos + 1, 2));
+		auto const minute = lexical_cast<int>(s.substr(pos + 4, 2));
+		if (hour < 0 || hour > (s[pos] == '-' ? 12 : 14) || minute < 0 || minute > 59) {
+			throw TimeFormatError(s);
+		}
+
+		_offset.set_hour(hour);
+		_offset.set_minute(minute);
 
 		if (s[pos] == '-') {
 			_offset.set_hour(-_offset.hour());
@@ -181,6 +188,10 @@ LocalTime::LocalTime (string s)
 		}
 	}
 }
+catch (boost::bad_lexical_cast &)
+{
+	throw TimeFormatError(s);
+}
 
 
 string
diff --git a/src/utc_offset.cc b/src/utc_offset.cc
index 8d4870d..a5a4cc2 100644
--- a/src/utc_offset.cc
+++ b/src/utc_offset.cc
@@ -42,7 +42,7 @@ using namespace dcp;
 void
 UTCOffset::set_hour(int hour)
 {
-	DCP_ASSERT(hour >= -11 && hour <= 12);
+	DCP_ASSERT(hour >= -12 && hour <= 14);
 	_hour = hour;
 }
 
-- 
2.43.0


From 288e5631b3b13332583567bdbfcd29783b410530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:46 +0000
Subject: [PATCH 08/36] fix: give the Lc and Rc channels an MCA id

These ids are read from the MainSoundConfiguration of some CPLs.  Changing
the mapping or the number of channels of such a configuration then failed an
assertion, as there was no id to write them with.
---
 src/main_sound_configuration.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main_sound_configuration.cc b/src/main_sound_configuration.cc
index 0d93311..c2deb4d 100644
--- a/src/main_sound_configuration.cc
+++ b/src/main_sound_configuration.cc
@@ -216,6 +216,10 @@ dcp::channel_to_mca_id(Channel c, MCASoundField field)
 		return "HI";
 	case Channel::VI:
 		return "VIN";
+	case Channel::LC:
+		return "Lc";
+	case Channel::RC:
+		return "Rc";
 	case Channel::BSL:
 		return "Lrs";
 	case Channel::BSR:
-- 
2.43.0


From 1e938ac20341d019702774de9dd323844a48af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:44 +0000
Subject: [PATCH 09/36] fix: S-Gamut3 transfer function over part of the range

The entries of a table made for a range other than 0-1 were calculated from
the position in the table, not from the value that the position stands for.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..5f5d0d0 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From fdb1d0e6d9280a81523930741473e605c199f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:44 +0000
Subject: [PATCH 10/36] fix: threshold of the inverse S-Gamut3 transfer
 function

The linear part of the curve goes up to 0.01125, where the forward function
changes over.  With the threshold divided by 1023 dark values were taken
through the logarithmic part, so that the forward and inverse functions did
not undo each other.
---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 5f5d0d0..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
-- 
2.43.0


From 1701fbf2c7facc62454283ac6f3363f4c964fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:27 +0000
Subject: [PATCH 11/36] fix: use the long-path-safe file operations everywhere

Asset::add_to_pkl, combine(), Data::write_via_temp() and
find_potential_dcps() called boost::filesystem directly.  On Windows
those calls fail for paths which are longer than MAX_PATH, though all
the other calls in the library work with them.
---
 src/asset.cc   | 2 +-
 src/combine.cc | 2 +-
 src/data.cc    | 3 ++-
 src/search.cc  | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asset.cc b/src/asset.cc
index ef06ea8..51d9c99 100644
--- a/src/asset.cc
+++ b/src/asset.cc
@@ -99,7 +99,7 @@ Asset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root) const
 		return;
 	}
 
-	pkl->add_asset(_id, _id, hash(), file_size(_file.get()), pkl_type(pkl->standard()), _file->filename().string());
+	pkl->add_asset(_id, _id, hash(), filesystem::file_size(_file.get()), pkl_type(pkl->standard()), _file->filename().string());
 }
 
 
diff --git a/src/combine.cc b/src/combine.cc
index e84b59a..141ae7c 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -154,7 +154,7 @@ dcp::combine(
 				 * re-write the subtitle XML file since the font URI might have changed
 				 * if it's a duplicate with another DCP.
 				 */
-				boost::filesystem::create_directories(output / sub->id());
+				dcp::filesystem::create_directories(output / sub->id());
 				auto fonts = sub->font_filenames();
 				for (auto const& k: fonts) {
 					sub->set_font_file(k.first, make_unique(output / sub->id() / k.second.filename()));
diff --git a/src/data.cc b/src/data.cc
index a26d4d1..23202dc 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -40,6 +40,7 @@
 #include "data.h"
 #include "file.h"
 #include "exceptions.h"
+#include "filesystem.h"
 #include <cstdio>
 #include <cerrno>
 
@@ -64,7 +65,7 @@ void
 Data::write_via_temp (boost::filesystem::path temp, boost::filesystem::path final) const
 {
 	write (temp);
-	boost::filesystem::rename (temp, final);
+	dcp::filesystem::rename (temp, final);
 }
 
 
diff --git a/src/search.cc b/src/search.cc
index 874ce11..8a210d1 100644
--- a/src/search.cc
+++ b/src/search.cc
@@ -106,7 +106,7 @@ find_potential_dcps(boost::filesystem::path path, vector<boost::filesystem::path
 
 	if (found) {
 		dcp.push_back(path);
-	} else if (boost::filesystem::is_directory(path)) {
+	} else if (dcp::filesystem::is_directory(path)) {
 		for (auto i: dcp::filesystem::directory_iterator(path)) {
 			try {
 				find_potential_dcps(i.path(), dcp);
-- 
2.43.0


From 763b82d6b1ff77dc5486b4db0cdd49d6edd95642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:42 +0000
Subject: [PATCH 12/36] fix: moving one open File onto another

The check for self-assignment compared the Files as bools, so if both
were open (or neither was) nothing was moved.  The path was never
moved.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From c2c806df0ab550417ee76838738af0bd1a033044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:42 +0000
Subject: [PATCH 13/36] fix: report failures to write strings and Interop text
 assets

InteropTextAsset::write() and write_string_to_file() ignored the result
of writing, so when there was no space left they returned as if all was
well.
---
 src/interop_text_asset.cc | 2 +-
 src/util.cc               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..0fd40e0 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -202,7 +202,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
-	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
+	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
 
 	_file = p;
 
diff --git a/src/util.cc b/src/util.cc
index 61b9ba6..e7f25bd 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -288,7 +288,7 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 		throw FileError("could not open file", path, errno);
 	}
 
-	file.write(string.c_str(), string.length(), 1);
+	file.checked_write(string.c_str(), string.length());
 }
 
 
-- 
2.43.0


From 53c02237aa4233db4a9679d22e785073ac447c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:45 +0000
Subject: [PATCH 14/36] fix: report errors which only appear when a file is
 closed

Small amounts of data are still in a buffer when fwrite() returns, and
are written by fclose().  Data::write(), EncryptedKDM::as_xml(),
write_string_to_file() and InteropTextAsset::write() did not notice if
that failed, and left a file without its content.
---
 src/data.cc               | 3 +++
 src/encrypted_kdm.cc      | 3 +++
 src/file.cc               | 6 ++++--
 src/file.h                | 3 ++-
 src/interop_text_asset.cc | 3 +++
 src/util.cc               | 3 +++
 6 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/data.cc b/src/data.cc
index 23202dc..75de390 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -58,6 +58,9 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+	if (f.close() != 0) {
+		throw FileError("could not write to file", file, errno);
+	}
 }
 
 
diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..2d78b1a 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -748,6 +748,9 @@ EncryptedKDM::as_xml (boost::filesystem::path path) const
 	if (f.write(x.c_str(), 1, x.length()) != x.length()) {
 		throw FileError ("Could not write to KDM file", path, errno);
 	}
+	if (f.close() != 0) {
+		throw FileError("Could not write to KDM file", path, errno);
+	}
 }
 
 
diff --git a/src/file.cc b/src/file.cc
index 27b0a7b..e23f2fb 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -93,13 +93,15 @@ File::operator=(File&& other)
 }
 
 
-void
+int
 File::close()
 {
+	int result = 0;
 	if (_file) {
-		fclose(_file);
+		result = fclose(_file);
 		_file = nullptr;
 	}
+	return result;
 }
 
 
diff --git a/src/file.h b/src/file.h
index c530c26..617ecf7 100644
--- a/src/file.h
+++ b/src/file.h
@@ -85,8 +85,9 @@ public:
 
 	/** Close the file; it is not necessary to call this as the
 	 *  destructor will do it if required.
+	 *  @return 0 on success, or EOF if some data could not be written.
 	 */
-	void close();
+	int close();
 
 	boost::filesystem::path path() const {
 		return _path;
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 0fd40e0..1704d87 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -203,6 +203,9 @@ InteropTextAsset::write(boost::filesystem::path p) const
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
 	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
+	if (f.close() != 0) {
+		throw FileError("Could not write to file", p, errno);
+	}
 
 	_file = p;
 
diff --git a/src/util.cc b/src/util.cc
index e7f25bd..e06259e 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -289,6 +289,9 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 	}
 
 	file.checked_write(string.c_str(), string.length());
+	if (file.close() != 0) {
+		throw FileError("could not write to file", path, errno);
+	}
 }
 
 
-- 
2.43.0


From 3ffc02711ea75e9c4dceb45bfbe652612055e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:41 +0000
Subject: [PATCH 15/36] fix: keep a ScopeGuard cancelled when it is moved

The function of a guard which had been cancelled and was then moved was
called when the new guard went out of scope.
---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From ca3101a80414b078871faa5f6f2a93037f743dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:41 +0000
Subject: [PATCH 16/36] fix: buffer overflow when a Key is assigned a longer
 one

The buffer kept the length of the old key.
---
 src/key.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cc b/src/key.cc
index f11f632..22fac6e 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -99,6 +99,9 @@ Key::operator= (Key const & other)
 		return *this;
 	}
 
+	auto value = new uint8_t[other._length];
+	delete[] _value;
+	_value = value;
 	_length = other._length;
 	memcpy (_value, other._value, _length);
 	return *this;
-- 
2.43.0


From 2bb3ce8509c7b57ab80f36cf18a9096f35910d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:58 +0000
Subject: [PATCH 17/36] fix: forbid copies which would free things twice

AssetReader, CryptoContext, OpenJPEGImage and PDFFormatter could be
copied or assigned with the compiler's own operators, so that two
objects freed the same thing.  AssetReader had operator== deleted where
operator= was meant.
---
 src/asset_reader.h   | 2 +-
 src/crypto_context.h | 3 +++
 src/openjpeg_image.h | 2 ++
 src/pdf_formatter.h  | 4 ++++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/asset_reader.h b/src/asset_reader.h
index 091ac91..1677d82 100644
--- a/src/asset_reader.h
+++ b/src/asset_reader.h
@@ -63,7 +63,7 @@ class AssetReader
 {
 public:
 	AssetReader (AssetReader const&) = delete;
-	AssetReader& operator== (AssetReader const&) = delete;
+	AssetReader& operator= (AssetReader const&) = delete;
 
 	~AssetReader ()
 	{
diff --git a/src/crypto_context.h b/src/crypto_context.h
index 6020ea8..eb8494f 100644
--- a/src/crypto_context.h
+++ b/src/crypto_context.h
@@ -90,6 +90,9 @@ public:
 		}
 	}
 
+	CryptoContext (CryptoContext const&) = delete;
+	CryptoContext& operator= (CryptoContext const&) = delete;
+
 	~CryptoContext ()
 	{
 		delete _context;
diff --git a/src/openjpeg_image.h b/src/openjpeg_image.h
index 6163bc2..ba77539 100644
--- a/src/openjpeg_image.h
+++ b/src/openjpeg_image.h
@@ -73,6 +73,8 @@ public:
 	 */
 	OpenJPEGImage (uint8_t const * in_16, dcp::Size size, int stride);
 
+	OpenJPEGImage& operator= (OpenJPEGImage const&) = delete;
+
 	~OpenJPEGImage ();
 
 	/** @param c Component index (0, 1 or 2)
diff --git a/src/pdf_formatter.h b/src/pdf_formatter.h
index b7d0213..2df0dd0 100644
--- a/src/pdf_formatter.h
+++ b/src/pdf_formatter.h
@@ -30,6 +30,10 @@ class PDFFormatter : public Formatter
 {
 public:
 	PDFFormatter(boost::filesystem::path file);
+
+	PDFFormatter(PDFFormatter const&) = delete;
+	PDFFormatter& operator=(PDFFormatter const&) = delete;
+
 	~PDFFormatter();
 
 	class Wrap : public Formatter::Wrap
-- 
2.43.0


From cb7feebf11fb900c0b4f1a810ba82606d6b3b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:07:47 +0000
Subject: [PATCH 18/36] fix: write the scope of the ReleaseTerritory that was
 read from a CPL.

---
 src/cpl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..8b59841 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto release_territory = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		release_territory->add_child_text(*_release_territory);
+		if (_release_territory_scope) {
+			release_territory->set_attribute("scope", *_release_territory_scope);
+		}
 	}
 
 	if (_version_number) {
-- 
2.43.0


From 696d612f8f2108010962ee3258eed87ad0b522dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:07:47 +0000
Subject: [PATCH 19/36] fix: keep the ContentAuthenticator when reading a KDM.

---
 src/encrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 2d78b1a..d756a60 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -398,6 +398,7 @@ public:
 	explicit KDMRequiredExtensions (shared_ptr<const cxml::Node> node)
 		: recipient (node->node_child ("Recipient"))
 		, composition_playlist_id (remove_urn_uuid (node->string_child ("CompositionPlaylistId")))
+		, content_authenticator (node->optional_string_child ("ContentAuthenticator"))
 		, content_title_text (node->string_child ("ContentTitleText"))
 		, not_valid_before (node->string_child ("ContentKeysNotValidBefore"))
 		, not_valid_after (node->string_child ("ContentKeysNotValidAfter"))
-- 
2.43.0


From d3541a043525e6f4f0f82f845288da3edb29d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:09:13 +0000
Subject: [PATCH 20/36] fix: describe a CPL with an invalid namespace by its
 file, as its ID is not known.

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..91de78a 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -2211,7 +2211,7 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	case VerificationNote::Code::VALID_CONTENT_VERSION_LABEL_TEXT:
 		return compose("CPL has valid <ContentVersion> %1", *note.content_version());
 	case VerificationNote::Code::INVALID_CPL_NAMESPACE:
-		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), note.cpl_id().get());
+		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), filename());
 	case VerificationNote::Code::MISSING_CPL_CONTENT_VERSION:
 		return compose("The CPL %1 has no <ContentVersion> tag", note.cpl_id().get());
 	case VerificationNote::Code::INVALID_PKL_NAMESPACE:
-- 
2.43.0


From abbe68caeb821dda71dfa101ea4f329d9d3ad7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:09:13 +0000
Subject: [PATCH 21/36] fix: count the frame of a too-large tile part from the
 start of the CPL, like other frames in notes.

---
 src/verify_j2k.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index f7f9117..4065442 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -224,7 +224,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (tile_part_length > max_tile_part_size) {
 					VerificationNote note{VerificationNote::Code::INVALID_JPEG2000_TILE_PART_SIZE};
-					note.set_frame(frame_index);
+					note.set_frame(start_index + frame_index);
 					note.set_frame_rate(dcp::Fraction(frame_rate, 1));
 					note.set_component(tile_part_index);
 					note.set_size_in_bytes(tile_part_length);
-- 
2.43.0


From 83a4d3259c6f80cd578b4edbd55dc43683f90949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:27 +0000
Subject: [PATCH 22/36] fix: forget the CPL that is being verified if it could
 not be read.

---
 src/verify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 91de78a..938db03 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1913,12 +1913,12 @@ dcp::verify (
 			try {
 				context.cpl = cpl;
 				verify_cpl(context, cpl);
-				context.cpl.reset();
-				context.audio_channels.reset();
-				context.subtitle_language.reset();
 			} catch (ReadError& e) {
 				notes.push_back(VerificationNote(VerificationNote::Code::FAILED_READ).set_error(e.what()));
 			}
+			context.cpl.reset();
+			context.audio_channels.reset();
+			context.subtitle_language.reset();
 		}
 
 		for (auto pkl: dcp->pkls()) {
-- 
2.43.0


From db757f0ed8abe0a93b362e22a4d9c3d91231f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:38 +0000
Subject: [PATCH 23/36] fix: report unknown markers and CPL version statuses as
 errors in the XML.

---
 src/types.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.cc b/src/types.cc
index 3b79be2..191750b 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -298,7 +298,7 @@ dcp::marker_from_string (string s)
 		return Marker::LFOB;
 	}
 
-	DCP_ASSERT (false);
+	throw XMLError(String::compose("Unknown marker %1", s));
 }
 
 
@@ -446,7 +446,7 @@ dcp::string_to_status (string s)
 		return Status::PRE;
 	}
 
-	DCP_ASSERT (false);
+	throw XMLError(String::compose("Unknown CPL version status %1", s));
 }
 
 
-- 
2.43.0


From 0b607ac711fe27aaf544e9a3664d93a8dd93a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:39 +0000
Subject: [PATCH 24/36] fix: report a malformed MainSoundSampleRate as an error
 in the XML.

---
 src/cpl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 8b59841..14ff43c 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -330,7 +330,9 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 	if (sr) {
 		vector<string> sr_bits;
 		boost::split(sr_bits, *sr, boost::is_any_of(" "));
-		DCP_ASSERT(sr_bits.size() == 2);
+		if (sr_bits.size() != 2) {
+			throw XMLError(String::compose("Could not parse MainSoundSampleRate %1", *sr));
+		}
 		_main_sound_sample_rate = raw_convert<int>(sr_bits[0]);
 	}
 
-- 
2.43.0


From 00742215562ef372a47892b99ce3d1446bc50719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:39 +0000
Subject: [PATCH 25/36] fix: report SMPTE-only assets in Interop CPLs as errors
 in the XML.

---
 src/reel.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 61a174c..0e9ad94 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -102,8 +102,7 @@ Reel::Reel (std::shared_ptr<const cxml::Node> node, dcp::Standard standard)
 	if (auto main_caption = asset_list->optional_node_child("MainCaption")) {
 		switch (standard) {
 		case Standard::INTEROP:
-			DCP_ASSERT(false);
-			break;
+			throw XMLError("Interop CPL contains a <MainCaption>");
 		case Standard::SMPTE:
 			_main_caption = make_shared<ReelSMPTETextAsset>(main_caption);
 			break;
@@ -118,8 +117,7 @@ Reel::Reel (std::shared_ptr<const cxml::Node> node, dcp::Standard standard)
 	for (auto i: closed_subtitles) {
 		switch (standard) {
 		case Standard::INTEROP:
-			DCP_ASSERT(false);
-			break;
+			throw XMLError("Interop CPL contains a <ClosedSubtitle>");
 		case Standard::SMPTE:
 			_closed_subtitles.push_back(make_shared<ReelSMPTETextAsset>(i));
 			break;
-- 
2.43.0


From cab5065e374a0548956c3a5721536b9ea28e35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:33:39 +0000
Subject: [PATCH 26/36] fix: report a malformed <Ruby> as an error in the XML.

---
 src/text_asset.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d690a27..3fcc011 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -343,7 +343,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 							} else if (*position_string == "after") {
 								position = RubyPosition::AFTER;
 							} else {
-								DCP_ASSERT(false);
+								throw XMLError(String::compose("Unknown ruby position %1", *position_string));
 							}
 						}
 						offset = optional_number_attribute<float>(ruby_element, "Offset");
@@ -352,8 +352,9 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 					}
 				}
 			}
-			DCP_ASSERT(base);
-			DCP_ASSERT(annotation);
+			if (!base || !annotation) {
+				throw XMLError("<Ruby> must contain <Rb> and <Rt>");
+			}
 			auto ruby = Ruby{*base, *annotation};
 			if (size) {
 				ruby.size = *size;
-- 
2.43.0


From a16ca35eb96eee2e3ef0d1e59534dfd9df2c066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:34:08 +0000
Subject: [PATCH 27/36] fix: report KDMs with malformed blocks as such.

---
 src/decrypted_kdm.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..74a826c 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -205,7 +205,9 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 		{
 			/* SMPTE */
 			/* 0 is structure id (fixed sequence specified by standard) [16 bytes] */
-			DCP_ASSERT (memcmp (p, smpte_structure_id, 16) == 0);
+			if (memcmp(p, smpte_structure_id, 16) != 0) {
+				throw KDMFormatError("KDM has an unknown structure ID");
+			}
 			p += 16;
 			/* 16 is is signer thumbprint [20 bytes] */
 			p += 20;
@@ -226,7 +228,7 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 			break;
 		}
 		default:
-			DCP_ASSERT (false);
+			throw KDMFormatError(String::compose("KDM contains a block of unknown length %1", decrypted_len));
 		}
 
 		delete[] decrypted;
-- 
2.43.0


From 6a841493626d0ca82bc4883c3404c5bf57cedfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:06 +0000
Subject: [PATCH 28/36] fix: refuse times with text after their end or a wrong
 separator in their offset.

---
 src/local_time.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 492a792..63841aa 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -151,7 +151,7 @@ try
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find_first_of("+-Z", pos);
+		auto end = s.find_first_not_of("0123456789", pos + 1);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
@@ -165,13 +165,16 @@ try
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (s.substr(pos) != "" && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
 		if ((s.length() - pos) != 6) {
 			throw TimeFormatError(s);
 		}
+		if (s[pos + 3] != ':') {
+			throw TimeFormatError(s);
+		}
 
 		auto const hour = lexical_cast<int>(s.substr(pos + 1, 2));
 		auto const minute = lexical_cast<int>(s.substr(pos + 4, 2));
-- 
2.43.0


From 070933eb42ea3c0122f3b6bc48b571a90f972a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:13 +0000
Subject: [PATCH 29/36] fix: forget the hash of a text asset when its file is
 written.

InteropTextAsset::write() and SMPTETextAsset::write() stored the path of the
new file but kept any hash which had been calculated before.  An asset which
was written, put in a package, changed and written again was then listed in
the PKL and CPL with the hash of its old content.
---
 src/interop_text_asset.cc | 2 +-
 src/smpte_text_asset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 1704d87..2ca0432 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -207,7 +207,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 		throw FileError("Could not write to file", p, errno);
 	}
 
-	_file = p;
+	set_file(p);
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..52cf492 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -500,7 +500,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	writer.Finalize ();
 
-	_file = p;
+	set_file(p);
 }
 
 bool
-- 
2.43.0


From 09b205c91f36f58879b9e587a2c39ca859552e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:22 +0000
Subject: [PATCH 30/36] fix: leave images of an Interop text asset outside the
 package out of its PKL.

Image files outside the package were already left out of the asset map, like
every other file there, but were added to the PKL, which then named assets
that the asset map did not have.
---
 src/interop_text_asset.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 2ca0432..6c02fa7 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -305,6 +305,11 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 	for (auto i: _texts) {
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
+			DCP_ASSERT(im->file());
+			if (!relative_to_root(filesystem::canonical(root), filesystem::canonical(im->file().get()))) {
+				/* This image is not within our DCP */
+				continue;
+			}
 			auto png_image = im->png_image ();
 			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
 		}
-- 
2.43.0


From a0c7480e36377c3a06933cbf05ca85aab2ebb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:14:43 +0000
Subject: [PATCH 31/36] fix: keep the weight of an outer Font when an inner one
 has none.

Every other attribute of a Font that is not given is taken from the
Fonts around it, but one without Weight was read as weight normal.
Since attributes which are common to several texts are written in an
outer Font, bold was lost when such an asset was written and read.
---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 3fcc011..aa844ca 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -146,7 +146,9 @@ TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 	ps.size = optional_number_attribute<int64_t> (node, "Size");
 	ps.aspect_adjust = optional_number_attribute<float> (node, "AspectAdjust");
 	ps.italic = optional_bool_attribute (node, "Italic");
-	ps.bold = optional_string_attribute(node, "Weight").get_value_or("normal") == "bold";
+	if (auto const weight = optional_string_attribute(node, "Weight")) {
+		ps.bold = *weight == "bold";
+	}
 	if (standard == Standard::INTEROP) {
 		ps.underline = optional_bool_attribute (node, "Underlined");
 	} else {
-- 
2.43.0


From c294b400fb4c40ec605e17512e10c68609661abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:57 +0000
Subject: [PATCH 32/36] fix: limit integer samples to the largest 24-bit value.

They were limited to 2^23, which does not fit into 24 bits; its low 24
bits are -2^23, so a sample beyond positive full scale was written as
negative full scale.
---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From 8c04adb443d5274f7dc4126b02986920fee285a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:32:15 +0000
Subject: [PATCH 33/36] fix: carry into the seconds when the editable units of
 a Time round up.

Time(59.9999, 24) gave 24 editable units at 24 units per second.
---
 src/dcp_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..040a6f5 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,10 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e >= tcr) {
+		e -= tcr;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From 8513cb5ad8f6d5abdbb31e153be8cce152dbb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:32:15 +0000
Subject: [PATCH 34/36] fix: include the seconds in the ratio of two Times.

The seconds were multiplied by the fraction rather than being added to it, so
that 10s / 5s was 0 / 0.
---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 040a6f5..ac53e7c 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -326,9 +326,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From c4b7954c7bf54c6fdd404faa6a70e8a5708d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:50:16 +0000
Subject: [PATCH 35/36] fix: keep texts with different rubies or variable Z
 positions apart when writing.

Two strings in the same place were written in one Text, with the rubies and
the variable Z positions of the first, so that those of the second were lost.
---
 src/text_asset.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index aa844ca..12b97ee 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -793,7 +793,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 	VAlign last_v_align;
 	float last_v_position;
 	float last_z_position;
+	vector<Text::VariableZPosition> last_variable_z_positions;
 	Direction last_direction;
+	vector<Ruby> last_rubies;
 	int load_variable_z_index = 1;
 
 	for (auto i: sorted) {
@@ -822,7 +824,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 			    last_v_align != is->v_align() ||
 			    fabs(last_v_position - is->v_position()) > ALIGN_EPSILON ||
 			    fabs(last_z_position - is->z_position()) > ALIGN_EPSILON ||
-			    last_direction != is->direction()
+			    last_variable_z_positions != is->variable_z_positions() ||
+			    last_direction != is->direction() ||
+			    last_rubies != is->rubies()
 				) {
 				text = make_shared<order::Text>(
 					subtitle,
@@ -842,7 +846,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 				last_v_align = is->v_align ();
 				last_v_position = is->v_position ();
 				last_z_position = is->z_position();
+				last_variable_z_positions = is->variable_z_positions();
 				last_direction = is->direction ();
+				last_rubies = is->rubies();
 			}
 
 			text->children.push_back (make_shared<order::String>(text, order::Font (is, standard), is->text(), is->space_before()));
-- 
2.43.0


From 76d32a4c6e3cc3eed778ee0070d2bd1d6e1e7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:22:55 +0000
Subject: [PATCH 36/36] fix: report pictures of different durations as
 different.

---
 src/j2k_picture_asset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 9879225..4134c90 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -121,6 +121,7 @@ J2KPictureAsset::descriptor_equals (
 
 	if (a.ContainerDuration != b.ContainerDuration) {
 		note (NoteType::ERROR, "video container durations differ");
+		return false;
 	}
 
 //		for (unsigned int j = 0; j < ASDCP::JP2K::MaxComponents; ++j) {
-- 
2.43.0

