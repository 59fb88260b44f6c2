TIME_NOTE = ('All obligations discharged for every calendar date of years 1402-9997 and every offset with agreeing signs. '
             'Trusted: boost date_time follows the Gregorian calendar (differentially tested each run), extractor, VC generator, solvers.')
PROPS = [
 dict(id='P01', title='Ordering and equality of times is the ordering of instants',
      statement='For any two local times with any UTC offsets, each of the six comparison operators gives the answer that comparing the two instants (clock reading minus offset, to the millisecond) gives. In particular the ordering is total and consistent with equality.',
      text='every pair of valid dates, times of day and UTC offsets', why='The tests compare about a dozen pairs, nearly all in whole-hour offsets; a slip in one field comparison or in the carry across day, month or year ends shows only for pairs that differ exactly there.',
      files=['src/local_time.cc', 'src/local_time.h'], mech=[('comparison operators via conversion to UTC', 'src/local_time.cc'), ('UTC offset', 'src/utc_offset.h')], note=TIME_NOTE),
 dict(id='P02', title='Times are written in xs:dateTime form and read back unchanged',
      statement='A time is written as YYYY-MM-DDTHH:MM:SS, with .mmm and a signed ±HH:MM offset when asked for, each field zero-padded. Reading the text back gives the same fields, milliseconds (when written) and offset, for every offset the reader admits.',
      text='every valid time, offset and combination of format flags', why='Tests format a handful of times; padding, sign and truncation faults show only for particular digits or offsets such as minus thirty minutes.',
      files=['src/local_time.cc'], mech=[('as_string, date, time_of_day', 'src/local_time.cc'), ('string constructor', 'src/local_time.cc')], note=TIME_NOTE),
 dict(id='P03', title='Reading a time accepts well-formed text exactly and refuses malformed text',
      statement='Text of the form YYYY-MM-DDTHH:MM:SS[.fraction][Z|±HH:MM] is read with every field as written, the fraction rounded down to milliseconds, no zone meaning UTC, and zones outside -11..+12 hours refused. Text that is too short, has a wrong separator, a non-numeric field or an unknown zone mark is refused with an exception and never read out of bounds.',
      text='every string of any length, with fractions of any number of digits', why='Tests try a dozen strings; there are infinitely many malformed ones and the fraction, zone and length checks interact.',
      files=['src/local_time.cc'], mech=[('string constructor', 'src/local_time.cc'), ('offset range', 'src/utc_offset.cc')],
      note='Proved for every string of any length, with fractions of any number of digits; a position known only to the contract says where the fraction ends. Trusted: std::string and lexical_cast contracts.'),
 dict(id='P04', title='Adding days, months, minutes or durations to a time is exact',
      statement='Adding days, minutes or a duration moves the clock reading by exactly that much across month, year and leap-day boundaries; adding months moves the month number exactly, keeps the day where it exists and otherwise (or from the last day of a month) uses the last day of the target month. Milliseconds and UTC offset are never disturbed and every resulting field is in range.',
      text='every valid time and every amount that stays inside years 1401-9998', why='Tests add a few values; carries interact with month lengths, leap years and negative amounts.',
      files=['src/local_time.cc'], mech=[('add_days, add_months, add_minutes, add', 'src/local_time.cc')], note=TIME_NOTE),
 dict(id='P05', title='Certificate validity times are decoded exactly and as UTC',
      statement='A certificate time YYMMDDHHMMSSZ (two-digit years below 70 meaning 20xx, others 19xx) or YYYYMMDDHHMMSSZ is decoded to exactly those fields with no fraction and offset zero, whatever the clock and time zone of the machine.',
      text='every digit string of either form, every current time and machine time zone', why='Tests decode one string of each form on a machine in one zone.', over=['inputs', 'configurations'],
      files=['src/local_time.cc'], mech=[('from_asn1_utc_time, from_asn1_generalized_time', 'src/local_time.cc')], note='Proved for every digit string of either form with the machine clock and zone left arbitrary. Trusted: sscanf contract for %2d/%4d.'),
 dict(id='P06', title='Time construction, UTC offsets and conversion to epoch seconds agree',
      statement='Times built from fields, the present moment, broken-down system time or a timestamp report exactly those fields, with the offset given or else that of the system\'s time zone, and setters change only what they name; UTC offsets outside -11..+12 hours or ±59 minutes are refused by the setters and compare equal only when identical. The epoch seconds of a time are those of its instant, so equal instants give equal values whatever their offsets.',
      text='every valid time, offset and 32-bit offset component', why='Tests convert one time in UTC and never an offset one.',
      files=['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc', 'src/utc_offset.h'], mech=[('constructors, as_time_t', 'src/local_time.cc'), ('set_local_time_zone', 'src/local_time.cc'), ('set_hour, set_minute, comparison', 'src/utc_offset.cc')], note=TIME_NOTE),
 dict(id='P07', title='Alignment, content kind and subtitle standard names map exactly',
      statement='Horizontal and vertical alignments are written as left/center/right and top/center/bottom, and only those words, in any mixture of cases, are read back (anything else is refused with an exception). Content kinds are found from their name regardless of case, each with the scope its standard defines, unknown names being refused; two kinds are equal exactly when name and scope are. Interop and SMPTE 2014 subtitles are positioned by baseline, SMPTE 2007 and 2010 ones by bounding box.',
      text='every enumerator and every string', why='Tests try a few words; a wrong scope, case rule or acceptance of a near miss shows only for the particular word.',
      files=['src/h_align.cc', 'src/v_align.cc', 'src/content_kind.cc', 'src/content_kind.h', 'src/subtitle_standard.cc'],
      mech=[('halign_to_string, string_to_halign', 'src/h_align.cc'), ('valign_to_string, string_to_valign', 'src/v_align.cc'), ('ContentKind::from_name and equality', 'src/content_kind.cc'), ('uses_baseline, uses_bounding_box', 'src/subtitle_standard.cc')],
      note='All obligations discharged for every enumerator and every string of any length. Trusted: std::string contracts, toupper/tolower as in the C locale, extractor, VC generator, solvers.'),
 dict(id='P08', title='File name templates expand exactly and yield clean names',
      statement='Expanding a template replaces each %x whose x has a value and is not ignored by that value, copies every other character, and in both turns / and : into - and blank into _ ; the suffix is then appended as it is. A % at the end, or before a character with no value, stays as it is; no position is skipped or expanded twice.',
      text='every template, set of values, suffix and list of ignored characters, of any length', why='Tests expand three templates; adjacent, trailing, ignored and self-referring placeholders interact.',
      files=['src/name_format.cc', 'src/name_format.h'], mech=[('NameFormat::get', 'src/name_format.cc'), ('equality', 'src/name_format.cc')],
      note='Proved with loop invariants for strings and maps of any size. Trusted: std::string and std::map contracts, extractor, VC generator, solvers.'),
 dict(id='P09', title='Bit streams are written most significant bit first with the right CRC',
      statement='Writing the low n bits of a byte or word appends exactly those n bits, most significant first, after what was there. The sixteen check bits written by ending a CRC are the CRC, with the chosen polynomial and initial remainder zero, of exactly the bits written since it was started, and are not themselves part of any CRC; starting one twice or ending one that was not started is refused.',
      text='every existing content, value, bit count and polynomial', why='Tests write one short stream; bit order, boundary counts and CRC start and stop show only with particular values.',
      files=['src/bitstream.cc', 'src/bitstream.h'], mech=[('write_bit, write_from_byte, write_from_word', 'src/bitstream.cc'), ('start_crc, write_crc', 'src/bitstream.cc')],
      note='All obligations discharged for streams of any length. Trusted: boost::crc_basic computes the CRC of the bits fed to it (compared with a bitwise CRC on every run), extractor, VC generator, solvers.'),
 dict(id='P10', title='Frequency shift keying emits the standard waveform for every bit sequence',
      statement='Every bit gives four samples: the 0 waveform (one half cycle) or the 1 waveform (one cycle) at the standard amplitudes, with polarity changed at the start of each bit that follows a 0 and kept otherwise. New data starts at its first bit and continues the polarity of what was sent before.',
      text='every bit sequence of any length, position and preceding state', why='The test encodes one sequence; polarity depends on history of unbounded length and on data being replaced part way.', over=['inputs', 'histories'],
      files=['src/fsk.cc', 'src/fsk.h'], mech=[('FSK::get', 'src/fsk.cc'), ('FSK::set_data', 'src/fsk.cc')],
      note='Proved by induction over samples with the class invariant as pre- and postcondition; at most four samples per bit requested. Trusted: extractor, VC generator, solvers, 0.0x*2^23 evaluated as the compiler does.'),
 dict(id='P11', title='A file object closes its stream exactly once and never uses a closed one',
      statement='Whatever sequence of opening, moving, move-assigning (also to itself), giving away and closing happens, every stream that was opened is closed exactly once or given away, and none is used after. The open state, path and error code reported are those of the stream held; reading, writing, seeking and the like pass exactly their arguments to the stream and return its answer, and on an object with no stream they are refused.',
      text='every open outcome and error, every pair of objects and every operation between them', why='Tests open a file or two that succeed; double closes and leaks after failed opens, moves and assignment need particular sequences.', over=['inputs', 'histories'],
      files=['src/file.cc', 'src/file.h'], mech=[('File constructors, destructor, move assignment, take, close', 'src/file.cc'), ('stream wrappers', 'src/file.cc')],
      note='All obligations discharged for each operation from every reachable object state. Trusted: stdio contracts (every outcome of each call considered), extractor, VC generator, solvers.'),
 dict(id='P12', title='Data is read and written completely or the failure is reported',
      statement='Checked reads and writes, loading a file into memory and saving memory to a file either move every byte, in order and nothing else, or report failure with an exception, whatever short transfers the system makes. Saving through a temporary file replaces the final one only after everything was written, files are closed on every path, and two pieces of data are equal exactly when their bytes are.',
      text='every content of any length, every pattern of short transfers and open failures', why='Tests never see a short or failed transfer.', over=['inputs', 'fault_sequences'],
      files=['src/file.cc', 'src/data.cc', 'src/array_data.cc'], mech=[('checked_read, checked_write', 'src/file.cc'), ('write, write_via_temp, equality', 'src/data.cc'), ('loading constructor', 'src/array_data.cc')],
      note='All obligations discharged for data of any length and any transfer outcome. Trusted: stdio contracts (a transfer moves any number of bytes up to that asked for), boost rename/file_size, extractor, VC generator, solvers.'),
 dict(id='P13', title='File system requests pass on exactly what was asked and its outcome',
      statement='Each file system function makes exactly one request of the system, of the kind its name says, for the paths given in the order given (overwriting only when asked to), and passes on its answer; failures are reported by exception or, where an error code is taken, only through it. Iterating over a directory visits every entry once. Making a path canonical makes it absolute, drops "." parts and lets ".." remove the part before it unless that is a symbolic link, never going above the root.',
      text='every path, system answer and failure; paths of any number of parts, every set of symbolic links; directories of any size', why='Tests canonicalise four paths and never see a failing system call; swapped arguments and lost error codes show only on failure.', over=['inputs', 'fault_sequences'],
      files=['src/filesystem.cc', 'src/filesystem.h'], mech=[('wrappers of boost::filesystem', 'src/filesystem.cc'), ('weakly_canonical', 'src/filesystem.cc'), ('directory iterators', 'src/filesystem.cc')],
      note='All obligations discharged; weakly_canonical by loop invariant for any number of parts. Trusted: boost::filesystem does what it is asked and splits paths correctly (its requests are recorded, not carried out), extractor, VC generator, solvers.'),
 dict(id='P14', title='A scope guard runs its function exactly once unless cancelled',
      statement='The function given to a scope guard runs exactly once, when the guard that holds it goes out of scope and never before. Moving a guard passes the function and whether it was cancelled to the new one and leaves the old one with nothing to do; a cancelled guard never runs it.',
      text='every sequence of moving, cancelling and destroying guards', why='The test has one guard that is neither moved nor cancelled.', over=['histories'],
      files=['src/scope_guard.h'], mech=[('constructors, destructor, cancel', 'src/scope_guard.h')],
      note='Proved by induction over the number of operations (the states a guard can be in are closed under every operation), and for every sequence of up to five operations on their own. Trusted: std::function, extractor, VC generator.'),
 dict(id='P15', title='Transfer function tables hold exactly the values of the curve',
      statement='A table of bit depth n for the range from..to has 2^n entries, entry k being the curve at from + (to - from) k / (2^n - 1). The curves are the power law, the power law with linear part (both with their inverses), S-Log3 as published by Sony with its inverse, and the identity.',
      text='every curve parameter, range inside 0..1 (either direction), bit depth 1 to 24 and direction', why='Tests look at gamma tables of the whole range at one or two depths; other ranges, the linear parts and inverses are never looked at.',
      files=['src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/identity_transfer_function.cc'],
      mech=[('make_double_lut of each curve', 'src/gamma_transfer_function.cc'), ('linear part and thresholds', 'src/modified_gamma_transfer_function.cc'), ('S-Log3 formulae', 'src/s_gamut3_transfer_function.cc')],
      note='Proved by loop invariant for every entry, over real numbers with pow and log10 uninterpreted; compiled tables are compared to 1e-9. Trusted: rounding of double arithmetic is below that, extractor, VC generator, solvers.'),
 dict(id='P16', title='Cached tables are those asked for, whatever was asked before and by whom',
      statement='A table asked for is the one belonging to the range, depth, direction and scale asked for, whatever tables were asked for before; integer tables are the rounded products of the table and the scale. Several threads may ask one function at once.',
      text='every request after every history of requests, from any number of threads', why='Tests ask fresh functions for one table from one thread; a key field left out of the cache or a missing lock shows only later.', over=['histories', 'schedules', 'inputs'],
      files=['src/transfer_function.cc', 'src/transfer_function.h'], mech=[('cache keys and lookup', 'src/transfer_function.cc'), ('mutex held while caches are used', 'src/transfer_function.cc')],
      note='Proved for any cache contents that satisfy the class invariant, with the lock held at every cache access and never taken twice (ghost lock state). Trusted: unordered_map finds equal keys, mutexes exclude, references into the map stay valid, extractor, VC generator, solvers.'),
 dict(id='P17', title='Two-part look-up tables give the nearest entry of the right part',
      statement='A table split at a boundary answers every value from 0 to 1: below the boundary with the entry of the low table nearest to the value, from it on with that of the high table, each at its own depth, direction and scale. No value reads outside either table.',
      text='every value in 0..1, boundary, pair of depths 1 to 16, direction and scale', why='Nothing built from the tests looks a value up; off-by-one indexes show only near the ends and the boundary.',
      files=['src/piecewise_lut.h'], mech=[('PiecewiseLUT2 constructor and lookup', 'src/piecewise_lut.h')],
      note='Proved over real numbers for tables of any content, tables themselves being the subject of P15 and P16. Trusted: lrint rounds to nearest even, extractor, VC generator, solvers.'),
 dict(id='P18', title='Colour matrices follow from primaries and white points',
      statement='The matrix from RGB to XYZ takes each primary to its own chromaticity and equal parts of all three to the white point with luminance 1; that from XYZ to RGB is its inverse. The chromatic adaptation matrix is the Bradford one from white to adjusted white, and the identity when there is no adjusted white or either of its coordinates is below 1e-6 in size.',
      text='every set of primaries, white and adjusted white for which the matrices exist', why='Tests look at one set of primaries, a rough inverse and two illuminants to 0.1 %.',
      files=['src/colour_conversion.cc', 'src/chromaticity.h'], mech=[('rgb_to_xyz, xyz_to_rgb, bradford', 'src/colour_conversion.cc'), ('z coordinate', 'src/chromaticity.h')],
      note='Proved as identities of rational functions by polynomial normal forms (own prover vc/ring.py) and z3; compiled matrices are compared to 1e-9. Trusted: boost ublas products and LU solving, rounding below the tolerance, extractor, VC generator.'),
 dict(id='P19', title='Colour conversions hold the published parameters and those set',
      statement='Each standard conversion (sRGB, Rec. 601, 709, 1886 and 2020, P3 with DCI, D65 and D60 white, S-Gamut3) has the input curve, YUV matrix, primaries, white point and output curve of its standard and no adjusted white. A conversion reports exactly the parameters it was made with, and each setter changes the one it names and no other.',
      text='every standard conversion; every set of parameters and every setter', why='Tests look at the curves of two of the nine conversions only.', over=['configurations', 'inputs'],
      files=['src/colour_conversion.cc', 'src/colour_conversion.h', 'src/chromaticity.cc'], mech=[('standard conversions, constructor', 'src/colour_conversion.cc'), ('accessors and setters', 'src/colour_conversion.h'), ('D65', 'src/chromaticity.cc')],
      note='Nine standard conversions evaluated completely, curves through 16-entry tables in both directions; accessors and setters proved for every value. Trusted: pow and log10 of the C library, extractor, VC generator.'),
 dict(id='P20', title='Colour conversions are about equal exactly when every part is',
      statement='Two colour conversions are about equal exactly when they use the same YUV matrix, each primary, white point and (both or neither having one) adjusted white differ by less than the tolerance in both coordinates, and input and output curves are both absent or of one kind with every parameter within the tolerance. Comparing never fails, also when curves are absent.',
      text='every pair of conversions and curves of any kind and every tolerance', why='No test built compares conversions; a part left out of the comparison shows only for pairs differing in that part alone.',
      files=['src/colour_conversion.cc', 'src/chromaticity.h', 'src/gamma_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/identity_transfer_function.cc', 'src/s_gamut3_transfer_function.cc'], mech=[('about_equal', 'src/colour_conversion.cc'), ('about_equal of each curve', 'src/modified_gamma_transfer_function.cc')],
      note='All obligations discharged over real numbers; comparison of points is a contract of its own, used where conversions are compared. Trusted: rounding of differences, extractor, VC generator, solvers.'),
 dict(id='P21', title='Subtitle times compare, add, subtract and convert exactly',
      statement='Times at any timecode rates compare as the instants they stand for (equality being that of the written parts), sums and differences at one rate are those of the instants, and the quotient is the ratio of the lengths. A time made from seconds or from a frame number is the nearest one of its rate with every part in range; conversions to editable units round as their names say.',
      text='every pair of times with parts in range, every rate, every number of seconds and frame', why='Tests add and compare a few times at one or two rates; carries and large rates are met by chance.', over=['inputs'],
      files=['src/dcp_time.cc', 'src/dcp_time.h'], mech=[('comparison operators, operator+, operator-, operator/', 'src/dcp_time.cc'), ('constructors from seconds and frames, rebase, as_editable_units', 'src/dcp_time.cc')],
      note='All obligations discharged, doubles as reals. The source is outside the built part of the library: it is compiled for the driver on its own. Trusted: rounding of double arithmetic, extractor, VC generator, solvers.'),
 dict(id='P22', title='Subtitle times are written and read as the two standards say',
      statement='A time is written HH:MM:SS:E, with fields of two digits (three for Interop editable units). Reading takes exactly the forms with three colons, and for Interop also two colons with one point, with fields of the right number of characters and a rate where one is needed; every other number of separators is refused.',
      text='every text with up to four colons and points, of any length; every time', why='Tests read some ten well-formed texts.', over=['inputs'],
      files=['src/dcp_time.cc', 'src/raw_convert.cc'], mech=[('Time::Time(string), as_string', 'src/dcp_time.cc')],
      note='All obligations discharged; positions of separators are ghost inputs, texts have any length, reading of numbers is the contract of P23. Trusted: boost split, extractor, VC generator, solvers.'),
 dict(id='P23', title='Integers are read from and written to text exactly',
      statement='An integer of any type is written as its decimal digits without leading zeros, with a minus sign when it is negative. Reading gives the value of the longest leading part of the text which is a number of the type, and 0 when there is none or it does not fit; what was written reads back as the same number.',
      text='every value of each of eight integer types; every text up to one character longer than the longest number', why='Tests convert a handful of small values.', over=['inputs'],
      files=['src/raw_convert.cc', 'src/locale_convert.cc'], mech=[('raw_convert specialisations', 'src/raw_convert.cc'), ('locale_convert specialisations', 'src/locale_convert.cc')],
      note='All obligations discharged. fast_float is not installed here: its contract (and a stand-in for the driver) is that of std::from_chars. Trusted besides: snprintf, sscanf, extractor, VC generator, solvers.'),
 dict(id='P24', title='Small types compare and convert to and from their texts exactly',
      statement='Effects, directions, markers, statuses, formulations and luminance units are written as their standard words, exactly those words (and horizontal and vertical for directions) are read, and any other is refused. Fractions read and write as two integers separated by one space, and are ordered by value; colours read from eight and write as six or eight hexadecimal digits; sizes, fractions, colours and luminances are equal exactly when their parts are (luminances to a thousandth), negative luminances are refused and one foot-lambert is 3.426 candela per square metre.',
      text='every enumerator, every text, every pair of values', why='Tests cover one or two words and colours.', over=['inputs'],
      files=['src/types.cc', 'src/types.h'], mech=[('word tables', 'src/types.cc'), ('Fraction, Colour, Size, Luminance', 'src/types.cc')],
      note='All obligations discharged; texts of any length, fraction numbers by the contract of P23. Trusted: boost split, snprintf, sscanf, extractor, VC generator, solvers.'),
 dict(id='P25', title='Messages have every argument in its numbered place',
      statement='A message made from a pattern holds the text of the pattern with %1, %2, ... each replaced by the argument of that number, wherever and however often it occurs, and %% by one percent sign. This is so whatever the arguments hold, also when they are empty or look like placeholders.',
      text='sixteen patterns of up to three arguments, arguments of any length and content', why='Messages are only looked at by people; arguments that are empty do not occur in tests.', over=['inputs'],
      files=['src/compose.hpp', 'src/locale_convert.cc'], mech=[('Composition', 'src/compose.hpp')],
      note='All obligations discharged for every argument of any length; patterns are the sixteen given. Trusted: list, multimap and string models, extractor, VC generator, solvers.'),
 dict(id='P26', title='Sound samples are stored exactly, in order, in whole frames',
      statement='Every sample given is stored as three bytes, lowest first, in order of time and then of channel: integers limited to the 24-bit range, parts of full scale as the nearest sample not beyond full scale, channels not given as silence. All frames are of the right length, the last filled up with silence, and the length of the asset is their number; reading a sample of 16 or 24 bits gives its value with its sign.',
      text='every number of samples and channels (1 to 16), every sample value and frame length, given in one or several lots', why='The sound code is not part of the test build; only particular sample values, channel counts and lengths which are no multiple of the frame show errors.', over=['inputs', 'histories'],
      files=['src/sound_asset_writer.cc', 'src/sound_asset_writer.h', 'src/sound_frame.cc'], mech=[('do_write, convert', 'src/sound_asset_writer.h'), ('write_current_frame, finalize', 'src/sound_asset_writer.cc'), ('SoundFrame::get, samples', 'src/sound_frame.cc')],
      note='Proved by loop invariants over the stream of bytes handed to the library that stores frames, for every number of samples; two lots for one and two channels, one lot otherwise. asdcplib is not installed: it has a contract (and a stand-in for the driver). Trusted besides: floats as reals, extractor, VC generator, solvers.'),
 dict(id='P27', title='The sync signal names the asset, the rate and the frame',
      statement='With sync on, channel 14 carries in every frame the packets of that frame, whatever was given for that channel: each has the sync word, the code of the rate, an index that counts 0 to 3 from packet to packet, the four bytes of the asset ID that belong to the index, the number of the frame in 24 bits, the CRC of all after the sync word, and zeros up to its end. The packets of a frame are exactly as long as the frame; sync is refused with fewer than 14 channels, for Interop and at sampling rates other than 48 kHz.',
      text='every asset ID, frame number and each of the nine rates', why='The sound code is not part of the test build; the test there is looks at one asset at 24 frames per second.', over=['inputs', 'histories'],
      files=['src/sound_asset_writer.cc', 'src/sound_asset_writer.h', 'src/bitstream.cc', 'src/fsk.cc'], mech=[('create_sync_packets', 'src/sound_asset_writer.cc'), ('channel 14 in do_write', 'src/sound_asset_writer.h')],
      note='Proved for every ID and frame number (state proved to recur every four frames, the counter being arbitrary). Samples that carry bits are the subject of P10. Trusted: asdcplib by contract, boost CRC, extractor, VC generator, solvers.'),
 dict(id='P28', title='Keys keep exactly their value, of any length, through copies and text',
      statement='A key holds the bytes it was made from, given as such or as hexadecimal digits of either case, whatever happens to the source later. Copies and assignments, between keys of any lengths and to itself, give the value of the source and leave it as it was; the text of a key has two lower-case hexadecimal digits for each byte. Keys are equal exactly when their lengths and all bytes are.',
      text='every key value of any length, every pair of keys', why='The code is not part of the test build, and the test there is assigns only to keys that are no shorter; overruns show only by chance.', over=['inputs', 'histories'],
      files=['src/key.cc', 'src/key.h'], mech=[('constructors, assignment, hex, operator==', 'src/key.cc')],
      note='Proved for any length by loop invariants and array terms; use after free, double free and accesses outside the value are obligations. Reading digits and random bytes are by the contract of asdcplib. Trusted besides: extractor, VC generator, solvers.'),
 dict(id='P29', title='Every pixel of a picture is converted between RGB and XYZ, on its own',
      statement='Converting a picture from RGB to XYZ, into planes or packed, gives each pixel the codes of its own light only: its components through the input curve, the RGB to XYZ and white-point matrices and the 48/52.37 scale, limited to 0 to 1, then through the inverse of the output curve. Converting back applies the same steps in reverse order, to 16 bits per component rounded to the nearest (components outside 0 to 4095 counting as the nearest of these) or to bytes of blue, green, red and 255. Rows are found by the stride given; nothing outside the rows is read or written.',
      text='every picture size and stride, every content, every input and output curve and matrix', why='The code is not part of the test build; tests convert a few pictures, mostly without gaps between rows, and would not notice one wrong pixel or entry of a matrix that is usually the identity.', over=['inputs', 'configurations'],
      files=['src/rgb_xyz.cc', 'src/rgb_xyz.h'], mech=[('rgb_to_xyz, xyz_to_rgb, xyz_to_rgba, combined_rgb_to_xyz', 'src/rgb_xyz.cc')],
      note='Proved by invariants of the nested loops about an arbitrary pixel, for arbitrary tables and matrices over the reals; products of unknowns are left uninterpreted, with lemmas about them proved for all integers at each run. Tables and matrices themselves are the subject of P15 to P18. Notes about values out of range are only sampled (bounded). Trusted besides: extractor, VC generator, solvers.'),
 dict(id='P30', title='Sound configurations and channel identifiers match the channels they name',
      statement='Each identifier of an audio channel, in any mixture of cases, is read as its channel, and any other text as none; each channel in use is written as its identifier, name and universal label for the sound field, and its identifier reads back as it. A configuration built from a field, a number of channels and settings of them is written as the field and the identifiers in order with "-" for unused ones, and changing the number keeps those that remain. A configuration read from text keeps the text, is valid exactly when it lists at most 16 channels, all known or "-", and then has that field and those channels; when it is not, its field, number and channels are refused.',
      text='every text as an identifier, every channel and sound field, every place and number of channels', why='The code is not part of the test build; tests read a few well-formed configurations and never change the number of channels or list 16 of them.', over=['inputs', 'histories'],
      files=['src/main_sound_configuration.cc', 'src/main_sound_configuration.h'], mech=[('mca_id_to_channel, channel_to_mca_id, channel_to_mca_name, channel_to_mca_universal_label', 'src/main_sound_configuration.cc'), ('MainSoundConfiguration', 'src/main_sound_configuration.cc')],
      note='Identifiers are proved for texts of any length; configurations for each number of channels up to 18, with identifiers of up to three arbitrary bytes for up to three channels and of one for more. Longer ones, and text after a second stroke, are only sampled (bounded). Trusted besides: extractor, VC generator, solvers, dictionary of asdcplib.'),
]
NA = {}
