NOT_APPLICABLE = [
    ('C90', 'The values come from libm and floating point rounding; bounding their error needs numerical evaluation or interval arithmetic over executions. C26 decides which formula is used at which point, not its accuracy.'),
    ('C91', 'The codec is OpenJPEG (not part of the repository); how near its result comes to the picture is a matter of its arithmetic. Nothing in the source of libdcp bounds it.'),
    ('C92', 'Validity against the schemas depends on the values of the members and on the schemas as a grammar; deciding it for all values would need an analysis of the written language against XSD types. C01 decides agreement with the reader only.'),
    ('C93', 'The writing and reading of frames is done by asdcplib, whose source is not here; only its declarations are analysed.'),
    ('C94', 'Whether signatures and digests verify is decided by xmlsec and OpenSSL at run time; from the source only the order of the calls can be seen.'),
    ('C95', 'The XML and MXF libraries write these files themselves, so what is left on the disk after an interruption is not determined by the source of libdcp (C05 decides it for the files that libdcp writes itself).'),
]

prop('C03', 'Equality compares every part of a value, like with like',
     'Two values of the same kind compare equal exactly when every part that makes up the value is equal; a difference in any single part (and nothing else) makes them unequal, and the "not equal" operator is always the opposite of the "equal" operator. '
     'No part of one value is ever compared with a different part of the other. '
     'Comparing two reels, text items, text assets, colour conversions or transfer functions looks at each of their components.',
     ['inputs'], 'all pairs of values of every type that has an equality operator or comparison method',
     'The tests compare a few hand-made pairs of a few types; a part that is left out of a comparison is only seen by a pair of values that differ in that part alone, for each of some 300 parts.',
     ['src/content_kind.cc', 'src/data.cc', 'src/dcp_time.cc', 'src/key.cc', 'src/local_time.cc', 'src/name_format.cc', 'src/utc_offset.cc', 'src/transfer_function.cc', 'src/colour_conversion.cc', 'src/chromaticity.h',
      'src/modified_gamma_transfer_function.cc', 'src/text_string.cc', 'src/text_image.cc', 'src/text.cc', 'src/reel.cc', 'src/verify.cc', 'src/types.cc', 'src/ruby.cc', 'src/rating.cc', 'src/language_tag.cc'],
     [mech('operator== / operator!= of value classes', 'src/*.cc'), mech('equals() of text items, text assets, reels and reel assets', 'src/text.cc, src/reel.cc, ...'), mech('about_equal()', 'src/colour_conversion.cc, src/*transfer_function.cc, src/chromaticity.h')],
     'abstract evaluation (conditional constant propagation) of each comparison function over the finite domain of orderings of the compared parts, driven by the class definitions',
     'Which members make up a value is taken from the class definitions, less a short list of exemptions in checks/c03.py; loops over containers are evaluated as "may".',
     observe=['results of ==, !=, equals(), about_equal()'])

prop('C04', 'Orderings are strict, total over their parts and mutually consistent',
     'For every type that can be ordered, "less than" is a strict ordering: never true of equal values, never true both ways round, and transitive; times are ordered by the instant they denote, whatever their offsets from UTC. '
     'The other ordering operators of the type give the answers that follow from "less than" and equality.',
     ['inputs'], 'all pairs (and hence triples) of values of every type with ordering operators, including times with different UTC offsets and time code rates',
     'Tests compare a handful of pairs. Whether an ordering is consistent depends on every combination of which parts are less, equal or greater, and a mistake in one branch is only seen by pairs that first differ there.',
     ['src/local_time.cc', 'src/dcp_time.cc', 'src/types.cc', 'src/verify.cc', 'src/language_tag.h', 'src/language_tag.cc', 'src/certificate.cc'],
     [mech('operator<, >, <=, >=', 'src/local_time.cc, src/dcp_time.cc, src/types.cc, src/verify.cc, src/language_tag.h')],
     'abstract evaluation of each ordering operator over all combinations of {less, equal, greater} of the compared parts; the result table must be that of a lexicographic order',
     'For operators with more than about seven compared parts only the combinations with at most two unequal parts are enumerated (all of them up to nine parts in the thorough tier).',
     observe=['results of the ordering operators; order of sorted collections'])

prop('C10', 'Pictures are converted pixel by pixel, within their tables and buffers',
     'When a picture is converted between RGB and XYZ, each channel of each pixel that is written is what the curves and the matrix of the conversion make of the pixel in the same place, kept between nothing and full, whatever the length of a line. '
     'For no values of pixels is a table used outside of its range: values that are out of theirs are brought to its nearest end, or the picture is refused. '
     'Nothing outside of the lines of the picture is read or written.',
     ['inputs'], 'all values of pixels, in and out of their range; all conversions; lines longer than their pixels',
     'Colours which leave the gamut, and values that a damaged file can have, are those that reach the ends of the tables; a wrong channel or coefficient shows only for some conversions; tests have a few pictures, and are not run without the codec.',
     ['src/rgb_xyz.cc'], [mech('xyz_to_rgb, xyz_to_rgba, rgb_to_xyz, combined_rgb_to_xyz', 'src/rgb_xyz.cc')],
     'abstract interpretation of the loops over pixels: pixels as terms in normal form of tables, matrix and pixels read; intervals of the indices',
     'Pictures of 3 by 2 pixels with lines of other lengths than their pixels. A calculation of another kind is not claimed. The tables are those of C26, the matrices those of C29.',
     state=['pixels'], observe=['pixels that are written'])

prop('C12', 'A key message carries every key, with what it is for, to its reader',
     'Whoever decrypts a key message finds every key that it was made with: the same key, identifier, kind and composition, in the same order, and the same period of validity, also in messages of the Interop standard. '
     'The message for a composition has a key for each asset that can be encrypted. '
     'A message is not made with a period outside the validity of any certificate of its signer, and not read if its keys disagree about the period or its blocks are of no known form.',
     ['inputs'], 'all keys, identifiers, periods and texts; messages with any number of keys; blocks of any length',
     'Reader and writer that are wrong in the same way agree with each other but not with projectors; the library cannot be linked here, so no test reads or makes a key message.',
     ['src/decrypted_kdm.cc', 'src/decrypted_kdm.h', 'src/decrypted_kdm_key.h', 'src/key.cc'],
     [mech('DecryptedKDM::encrypt, put(), put_uuid()', 'src/decrypted_kdm.cc'), mech('DecryptedKDM (EncryptedKDM, string), get(), get_uuid()', 'src/decrypted_kdm.cc'), mech('DecryptedKDM (CPL, Key, ...)', 'src/decrypted_kdm.cc')],
     'abstract interpretation with pointers into buffers (which byte of the block holds which byte of what); the block that the writer leaves is given to the reader, and compared with the layout of the standards',
     'RSA and base64 are trusted to give back what was put in. Kinds of keys are taken to have four letters and identifiers 36, as the standards say. The XML around the blocks is another property.',
     state=['block of a key'], observe=['keys(), not_valid_before() and not_valid_after() of a decrypted message', 'key identifiers in the message'])


prop('C13', 'A written package lists every file it holds, as it is on the disk',
     'After a package is written its packing list and asset map hold every composition, asset, font and image within it, once each with its identifier, size, digest and path, and nothing from before or from outside. '
     'The digests are those of the files as they are: an asset or composition that is written again is listed with its new digest. '
     'Lists and volume index are written where readers look for them, and the packing list where the asset map says.',
     ['inputs', 'histories'], 'all packages, new or read and changed, of both standards; assets written once or several times before',
     'A stale digest or a missing entry shows only after a particular history (read, change, write again; an asset used twice; images or fonts in Interop texts), of which tests try few.',
     ['src/dcp.cc', 'src/asset.cc', 'src/interop_text_asset.cc', 'src/smpte_text_asset.cc', 'src/cpl.cc'],
     [mech('DCP::write_xml / assets / write_volindex', 'src/dcp.cc'), mech('Asset::add_to_pkl / add_to_assetmap / hash / set_file', 'src/asset.cc'), mech('InteropTextAsset::add_to_pkl / add_to_assetmap / write', 'src/interop_text_asset.cc'), mech('writers of assets', 'src/smpte_text_asset.cc')],
     'typestate of packing list, asset map and digests followed by abstract interpretation of the writing, over shapes of packages and what is left from before; call graph for writers of MXF files',
     'Compositions, assets and lists are followed as objects; what each writes of itself into its file is another property. Packages are taken with two compositions and five assets, of which one is shared and one not resolved.',
     state=['entries of packing list and asset map', 'digests kept by assets'], observe=['packing list', 'asset map', 'volume index'])


prop('C14', 'Operations on reels, compositions and packages take in every asset',
     'Listing, resolving, comparing, writing and measuring a reel, composition or package, and asking whether it is encrypted, take in every asset that it holds, of every kind and whatever else it holds. '
     'A key reaches the asset that it is for and no other, whether the asset is resolved before or after the key is given. '
     'An asset, reel or composition that is added is kept in its place beside those that were there.',
     ['inputs', 'histories'], 'all reels, compositions and packages, with any combination of assets; keys given before and after references are resolved',
     'A reel has eight places for assets, several of which are rare (open captions, closed subtitles, Atmos); tests use few combinations of them.',
     ['src/reel.cc', 'src/reel.h', 'src/cpl.cc', 'src/dcp.cc'],
     [mech('Reel::resolve_refs / give_kdm_to_assets / file_assets / equals / any_encrypted / all_encrypted / duration / add / write_to_cpl', 'src/reel.cc'), mech('CPL::reel_file_assets / resolve_refs / add / equals', 'src/cpl.cc'), mech('DCP::assets / resolve_refs / add / equals', 'src/dcp.cc')],
     'must-analysis by abstract interpretation over the shape of reels (one asset known, everything else anything, branches on unknown values joined), for each operation, place and class of asset',
     'Where anything in the other places is too little to decide, they are taken to hold nothing or one other asset. What the assets themselves do is not part of it.',
     state=['places of a reel', 'keys kept for later'], observe=['lists of assets', 'keys of assets', 'results of comparisons'])


prop('C15', 'Every problem that verification knows is found and can be described',
     'Each problem that the verifier declares is noted somewhere, has a type, and has a text in which every place is filled. '
     'Every note carries the details that its text uses, so that describing it never fails, and says of which composition, reel and asset it is only while these are being verified.',
     ['inputs'], 'all packages; all 120 problems; all places at which they are noted',
     'Most problems are found only in particular broken packages; a note that lacks a detail aborts the program that describes it, and no test describes all of them.',
     ['src/verify.cc', 'src/verify.h', 'src/verify_internal.h', 'src/verify_j2k.cc', 'src/cpl.cc', 'src/dcp.cc', 'src/pkl.cc'],
     [mech('note_to_string(), VerificationNote::type(), places that make a VerificationNote', 'src/verify.cc')],
     'exhaustiveness over the enumeration (abstract evaluation of text and type for each problem) and a must-analysis of the details set at each place of noting, with scope guards, exception handlers and the call graph for what the context adds',
     'Says that problems are noted with all their details, not that the conditions for noting them are those of the standards.',
     observe=['note_to_string()', 'notes given by verify()'])


prop('C20', 'Malformed documents are reported as such, never as mistakes of the program',
     'Whatever a document, file or key message holds, reading it either succeeds or is refused with the error documented for what is wrong with it. '
     'No value that is read is relied on before it has been checked: an assertion never depends on it, an absent optional part or an empty list is never used as if it were there, and a name or time in no known spelling is refused, not taken for a known one.',
     ['inputs'], 'all documents, well formed or not; every assertion and every use of an optional value or container that depends on what was read',
     'Tests read a few broken documents; the ways in which a document can be broken are unlimited, and an assertion that fails ends the program of the user.',
     ['src/cpl.cc', 'src/reel.cc', 'src/types.cc', 'src/text_asset.cc', 'src/decrypted_kdm.cc', 'src/local_time.cc', 'src/verify.cc'],
     [mech('DCP_ASSERT and optional values that depend on what is read', 'src'), mech('readers of enumerated values', 'src/types.cc'), mech('LocalTime(string)', 'src/local_time.cc')],
     'interprocedural taint analysis from XML nodes, files, descriptors and decrypted blocks to assertions and unchecked uses, with sanitising by dominating conditions; abstract interpretation of readers of names and times on text that they must refuse',
     'A value counts as checked if any condition on it leads to another exception or early return, whether or not the condition is the right one. Libraries that parse XML and MXF are trusted.',
     observe=['exceptions thrown by the constructors that read documents'])


prop('C16', 'An MXF asset holds every frame it was given, as given, under its key',
     'Every frame that is given to a writer is written to the file once, in order and with the key of the asset, after the file was opened with the description of the asset; then the asset has its file and as many frames as were written, and no more are taken. '
     'In sound each sample of each channel is in its place, channels that are not given are silent, samples beyond full scale are limited to it, and an incomplete last frame is written as well. '
     'A reader gives the frame that it is asked for with the key of its asset, reads back the description that was written, and whatever fails in writing or reading is reported.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of real and repeated frames and blocks of sound of any size, for every kind of asset, both standards, with and without a key; each operation of the MXF and cryptographic libraries failing',
     'Numbers of channels and sizes of blocks that do not fit frames, keys together with each standard, and failures of the libraries below are combinations of which tests have a few; the MXF library is needed to try any.',
     ['src/asset_writer.cc', 'src/sound_asset_writer.h', 'src/sound_asset_writer.cc', 'src/mono_j2k_picture_asset_writer.cc', 'src/stereo_j2k_picture_asset_writer.cc', 'src/atmos_asset_writer.cc', 'src/crypto_context.h', 'src/asset_reader.h', 'src/frame.h', 'src/mxf.cc'],
     [mech('write / fake_write / finalize of the writers', 'src/mono_j2k_picture_asset_writer.cc'), mech('SoundAssetWriter::do_write / convert', 'src/sound_asset_writer.h'), mech('CryptoContext', 'src/crypto_context.h'), mech('AssetReader / Frame', 'src/asset_reader.h'), mech('MXF::fill_writer_info / read_writer_info', 'src/mxf.cc')],
     'typestate of writers and readers followed by abstract interpretation of histories, with the operations of the MXF library recorded or failing; symbolic bytes of samples; intervals for their range',
     'Histories have up to four frames and sound up to 16 channels with blocks that do and do not fit frames; bytes of samples are symbols, so that nothing depends on their values. What the MXF library does with what it is given is not part of it.',
     state=['position in the frame', 'frames written', 'state of the writer'], observe=['operations on the MXF file', 'length, file and description of the asset'])


prop('C17', 'Times of texts and markers are exact whatever their rates',
     'Adding and subtracting times, also of different rates, gives the sum and difference of the instants; making a time from seconds or a frame, and changing its rate, gives the nearest instant that it can hold; each with minutes, seconds and units within their bounds. '
     'What a time counts, in seconds or in units of any rate rounded up or down, is counted from the beginning, and the ratio of two times is that of the seconds they count. '
     'The text of a time has hours, minutes, seconds and units in order, each is read from its place in any of the accepted forms, and texts of other forms are refused.',
     ['inputs'], 'all times with parts within their bounds and all rates; all numbers of seconds and frames that are not negative; all texts',
     'A carry is wrong only for a particular sum (59 seconds and 23 units, of different rates); tests have a few sums, and are not run without the XML library.',
     ['src/dcp_time.cc', 'src/dcp_time.h'], [mech('operators + - / on Time, Time::set, rebase, as_editable_units, as_string', 'src/dcp_time.cc')],
     'path-sensitive value analysis: polynomial normal forms of the result of every path, bounds from the conditions of the path; symbolic texts',
     'Calculation is taken as exact (the rounding of floating point is not part of it). Where a path of another shape cannot be shown to be right, only values that refute its formulas are reported.',
     state=['parts of a time'], observe=['parts of the result', 'seconds and units counted', 'text'])

prop('C18', 'A text that is written keeps its own times, place, font and annotations',
     'A document of texts that is written, in either standard, has every text and image once and in order. '
     'Each has the times, fades, position, alignment, depth, direction, font features, space and annotations that it was given (as far as the standard can hold them, and to the figures that are written), whatever texts are beside it and however the elements around it are shared.',
     ['inputs'], 'lists of texts and images which differ in any property, in both standards',
     'Texts share elements when they are alike, so a property is lost only if two neighbours differ in just that one; tests have a few lists, and are not run without the XML library.',
     ['src/text_asset.cc', 'src/text_asset_internal.cc', 'src/text_asset_internal.h'], [mech('TextAsset::texts_as_xml, pull_fonts; order::Part, Font, Subtitle, Text, String, Image', 'src/text_asset_internal.cc')],
     'abstract interpretation of the writing of texts to a tree of elements, which is compared with what was given by the inheritance rules of the standards',
     'Up to three texts or images, which differ in one property at a time; the sorting of texts is taken to leave those that are in order as they are. Values written to few figures are compared to those.',
     state=['texts of an asset'], observe=['elements and attributes of the document'])

prop('C19', 'Numbers in documents and names are the same in every locale',
     'Numbers, dates and times that are written to documents and names are written with the same characters, and those that are read are understood in the same way, whatever locale the program that uses the library has chosen. '
     'The library never changes the locale of that program.',
     ['configurations', 'inputs'], 'all locales, with any decimal point and grouping of digits, and all values',
     'Tests run in one locale, in which all ways of converting a number agree.',
     ['src/local_time.cc', 'src/dcp_time.cc', 'src/types.cc', 'src/text_asset_internal.cc', 'src/load_variable_z.cc', 'src/cpl.cc', 'src/raw_convert.cc'],
     [mech('all conversions between numbers and text', 'src')],
     'effect analysis: every call that converts between number and text, with resolved callee, argument types and format, is classified by its dependence on the C or C++ locale; text that can only reach exceptions or messages is set apart by a use analysis',
     'Classification of library functions is built in. Case conversion of letters (tolower) is not covered.',
     observe=['text of documents and names', 'values read'])


prop('C21', 'Combining packages keeps every file and overwrites nothing',
     'A package that is combined from others holds every composition of each of them, with every asset that these refer to in its own folder, whatever the names of the files are. '
     'No file that was in the folder before, or came from another package, is written over, and each asset and font is listed under the name that its file has. '
     'The new package has the issuer, creator, date, annotation and signer given, and packages of different standards are refused before anything is written.',
     ['inputs', 'configurations'], 'any number of packages of either standard, with files of any names, into any folder', 'The tests combine a few packages and are not run without the MXF library.',
     ['src/combine.cc'], [mech('combine, make_unique, create_hard_link_or_copy', 'src/combine.cc')],
     'Abstract interpretation of the combining over the resolved syntax tree, with a model of the disk, for representative packages with files of the same names',
     'Up to three packages of each standard, with and without links and files from before; the reading, resolving and writing of packages are those of C13 and C14.',
     state=['the new package', 'the folder it is in'], observe=['files', 'assets', 'lists'])

prop('C22', 'A text has each property from the nearest element that gives it',
     'Each attribute of a font, text or subtitle element of a subtitle or caption document sets the one property of the text that it is for, and no other, whatever other attributes there are. '
     'A text within several elements has each property from the innermost that gives it, and a property that is given within an element does not reach the texts after it. '
     'Every edition of the standard has vertical positions measured from exactly one of the baseline and the box of the text, and a document is written with the edition it was read with.',
     ['inputs', 'programs'], 'all documents of both standards and every edition: any nesting of font, text and subtitle elements with any attributes',
     'A property is lost only with a particular attribute in a particular nesting (bold outside, italic inside); tests have a few documents.',
     ['src/text_asset.cc', 'src/subtitle_standard.cc', 'src/smpte_text_asset.cc', 'src/interop_text_asset.cc'],
     [mech('TextAsset::font_node_state / text_node_state / subtitle_node_state / position_align', 'src/text_asset.cc'), mech('TextAsset::parse_texts / maybe_add_text', 'src/text_asset.cc'), mech('uses_baseline / uses_bounding_box', 'src/subtitle_standard.cc'), mech('SMPTETextAsset::schema_namespace / parse_xml', 'src/smpte_text_asset.cc')],
     'abstract interpretation of the readers over element and attribute; must-analysis of the stack of states over nestings of two elements; enumeration of the editions',
     'Nestings of two elements stand for deeper ones, as the reader joins states one after another. What the value of an attribute is read as is not part of it.',
     state=['stack of properties while reading', 'edition of the standard'], observe=['properties of texts', 'namespace of a written document'])


prop('C23', 'Times survive being written as text and read back, and are read exactly',
     'A time written as text and read back (with any offset from -12:00 to +14:00, including those of less than an hour and negative ones, with or without milliseconds) is the same time with the same offset. '
     'Every accepted spelling (a fraction of a second of any length or none; "Z", an offset, or nothing) gives the date, time, milliseconds and offset that it spells. '
     'Text that is too short, has a wrong separator, something other than a number where a number belongs, or an offset out of that range, is rejected with the documented error and no other; nor can the hours or minutes of an offset be set to anything out of it.',
     ['inputs'], 'all times, all offsets and all accepted spellings, and malformed text of every length',
     'There are some 10^13 times and offsets and several spellings of each; the tests try about twenty strings.',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc', 'src/utc_offset.h'],
     [mech('LocalTime::as_string / date / time_of_day', 'src/local_time.cc'), mech('LocalTime(string)', 'src/local_time.cc'), mech('UTCOffset::set_hour / set_minute', 'src/utc_offset.cc')],
     'abstract interpretation of writer and reader over strings whose characters are literals or symbolic decimal digits of a member (with an interval for each member); the text template of the writer is handed to the reader and the members it sets must be the originals',
     'Digits are symbolic so one run covers every value of a field; formatting and number-parsing library calls are modelled. Fractions of 1 to 6 digits are enumerated, malformed text by cutting the templates short and by classes of bad character.',
     observe=['LocalTime::as_string()', 'LocalTime(std::string)'])

prop('C24', 'Time arithmetic and conversion keep the instant',
     'Adding a duration, minutes, days or months to a time moves it by exactly that amount, in either direction, and leaves its offset alone; conversion to UTC subtracts the whole offset, hours and minutes. '
     'Times made from a broken-down time, from a date-and-time object or from the date fields of a certificate have each field in its place (two-digit years 00-49 are 20xx, 70-99 are 19xx), '
     'and the number of seconds since 1970, the accessors and the setters are consistent with those fields.',
     ['inputs'], 'all times, offsets, amounts and directions',
     'A wrong weight, sign or field shows only for values that exercise it (negative half-hour offsets, month ends, certificate dates of other centuries); the tests hold a handful of such values.',
     ['src/local_time.cc', 'src/local_time.h', 'src/utc_offset.cc', 'src/utc_offset.h'],
     [mech('LocalTime::add / add_days / add_months / add_minutes / as_utc / as_time_t / set', 'src/local_time.cc'), mech('LocalTime::from_asn1_utc_time / from_asn1_generalized_time', 'src/local_time.cc')],
     'member summaries (value terms at exit in terms of values at entry) reduced to a normal form date + polynomial of microseconds, compared with the normal form that the operation means; ASN.1 readers by abstract interpretation over symbolic digit strings',
     'Calendar arithmetic itself (lengths of months, leap years) is that of boost and is trusted.',
     observe=['LocalTime members through accessors'])

prop('C01', 'Documents that are written are read back as they were',
     'Everything that the composition playlist, packing list, asset map and key delivery message hold is written to a place of the document from which the reader takes it back into the same property, under the standard to which the document belongs. '
     'An optional property is written exactly if it is there, what the reader insists upon is always written, and a reader that refuses unknown elements knows every element that is written.',
     ['inputs'], 'all values of all properties of the four kinds of document and of the reels, assets, ratings, versions, metadata and devices inside them',
     'There are some 130 elements and attributes; a name that differs in the writer only loses one property of some packages, silently if it is optional.',
     ['src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/reel.cc', 'src/reel_asset.cc', 'src/reel_file_asset.cc', 'src/reel_picture_asset.cc', 'src/reel_text_asset.cc', 'src/reel_markers_asset.cc', 'src/encrypted_kdm.cc', 'src/rating.cc', 'src/content_version.cc', 'src/mca_sub_descriptor.cc'],
     [mech('write_xml(), write_to_cpl(), as_xml() and the constructors from nodes', 'src/*.cc')],
     'reader/writer table agreement: abstract interpretation of the writer gives for every element and attribute its path and the member written, that of the reader the path looked for and the member assigned; both tables (helpers and nested classes expanded) are compared, with conditions of writing and with dominance for mandatory places',
     'Agreement of places, conditions and prefixes, not of the text forms (C02, C23) nor of the behaviour of the XML library. Text assets are not part of it.',
     observe=['the XML document', 'results of the getters after reading'])


prop('C02', 'Enumerated values survive their text form',
     'Every value of an enumerated kind (horizontal and vertical alignment, text effect and direction, marker, status, key formulation, luminance unit, sound channel, content kind) has a text of its own, spelled as the standards spell it, and reading that text gives the same value back. '
     'Alignments, channels and content kinds are read whatever the case of their letters, and each content kind is in the list of all kinds and has its scope. '
     'Text that belongs to no value is refused, never turned into some value.',
     ['inputs'], 'all values of all enumerations that have a text form, and all texts',
     'The tests try some values of a few enumerations; a wrong or missing entry in a table is only seen by the value it belongs to.',
     ['src/h_align.cc', 'src/v_align.cc', 'src/content_kind.cc', 'src/content_kind.h', 'src/types.cc', 'src/types.h', 'src/main_sound_configuration.cc'],
     [mech('*_to_string / string_to_*', 'src/h_align.cc, src/v_align.cc, src/types.cc'), mech('ContentKind::all, ContentKind::from_name, ContentKind constants', 'src/content_kind.cc'), mech('channel_to_mca_id, mca_id_to_channel', 'src/main_sound_configuration.cc')],
     'exhaustive abstract evaluation of each writer over all values of its enumeration, and of each reader over every text the writer gives and texts near to them (conditional constant propagation over the flow graph); reader/writer pairs found from their types',
     'That unknown texts are refused is evaluated for texts derived from the known ones (cut short, extended, reversed, padded); readers compare whole texts, so others behave alike.',
     observe=['*_to_string', 'string_to_*', 'ContentKind::from_name', 'mca_id_to_channel'])

prop('C26', 'Transfer function tables hold their curve over the range asked for',
     'A table of a transfer function has 2 to the power of its bit depth entries, which are the values of the curve at equally spaced points from one end of the range asked for to the other, whatever the range, the depth and the direction. '
     'The curves (pure gamma, identity, gamma with a linear part, S-Gamut3) change over where their definition says, the inverse direction undoes the forward one, and tables of integers are the nearest integers to the scaled values. '
     'A piecewise table looks each value up in the piece and at the place that it belongs to.',
     ['inputs'], 'all ranges, bit depths, directions, scales and parameters of the curves',
     'The tests compare tables of the range 0 to 1 with the same formulae for a few parameters; ranges that start or end elsewhere, other directions and the pieces of a piecewise table are not looked at.',
     ['src/gamma_transfer_function.cc', 'src/identity_transfer_function.cc', 'src/modified_gamma_transfer_function.cc', 'src/s_gamut3_transfer_function.cc', 'src/transfer_function.cc', 'src/piecewise_lut.h'],
     [mech('make_double_lut of each transfer function', 'src/*_transfer_function.cc'), mech('TransferFunction::make_int_lut', 'src/transfer_function.cc'), mech('PiecewiseLUT2::lookup', 'src/piecewise_lut.h')],
     'evaluation of one generic iteration of each table-filling loop; index range and entry are reduced to normal forms (index replaced by the point of the range it stands for) and compared with those of the curve on each side of its threshold',
     'Values are compared as formulae, up to rounding; the accuracy of pow() and log10() is trusted. Formulae that use other functions are left undecided.',
     observe=['TransferFunction::double_lut', 'TransferFunction::int_lut', 'PiecewiseLUT2::lookup'])

prop('C09', 'Shared tables are safe to use from many threads, and are the ones asked for',
     'The tables of a transfer function can be asked for from any number of threads at once: the tables already made are never read or changed without their lock, no thread waits for itself, and a table that has been given out is never replaced, moved or removed. '
     'Each caller gets the table for exactly the range, depth, direction and scale that it asked for, whatever was asked for before.',
     ['schedules', 'histories'], 'all interleavings of callers and all sequences of requests',
     'A missing lock shows in a few schedules out of very many, and a key that leaves something out only if two requests that differ in just that follow each other.',
     ['src/transfer_function.cc', 'src/transfer_function.h'],
     [mech('TransferFunction::double_lut / int_lut and the maps they keep', 'src/transfer_function.cc'), mech('LUTDescriptor equality and hash', 'src/transfer_function.cc')],
     'must-analysis of held locks over the flow graphs of the methods (private ones inlined) with a who-may-lock call graph; evaluation of the lookup functions for found / not found with keys as symbolic tuples',
     'Every class of the library that has a mutex is analysed (there is one). Schedules are covered because the rule (one lock for all accesses) is sufficient for all of them.',
     state=['TransferFunction::_double_luts', 'TransferFunction::_int_luts'], observe=['TransferFunction::double_lut', 'TransferFunction::int_lut'])

prop('C29', 'Colour matrices take white to white and primaries to primaries',
     'For every colour conversion, the matrix from RGB to XYZ takes each primary to its chromaticity and full white to the white point with luminance 1; the matrix from XYZ to RGB is its inverse; the adaptation of the white point takes the white to the adjusted white by the Bradford method, and is the identity if there is no adjusted white. '
     'The built-in conversions have the primaries, white point and curves of the standards that they are named after, and each part of a conversion is kept and given back in its own place.',
     ['inputs', 'configurations'], 'all chromaticities of primaries, white and adjusted white, and all built-in conversions',
     'The tests check that two matrices undo each other for one conversion and the adaptation for two whites; both hold for wrong matrices too, and the other built-in conversions are not looked at.',
     ['src/colour_conversion.cc', 'src/colour_conversion.h', 'src/chromaticity.h', 'src/chromaticity.cc', 'src/rgb_xyz.cc'],
     [mech('ColourConversion::rgb_to_xyz, xyz_to_rgb, bradford and the built-in conversions', 'src/colour_conversion.cc'), mech('combined_rgb_to_xyz', 'src/rgb_xyz.cc')],
     'abstract evaluation of the matrix functions along each of their paths with the elements as rational functions of the chromaticities; the defining identities are decided by exact polynomial identity testing; the tables of built-in conversions are evaluated to constants and compared with the published values',
     'The identities are compared at fixed rational points in exact arithmetic, with a tolerance for the ten digits of the given inverse Bradford matrix. Floating-point rounding and singular choices of primaries are outside.',
     observe=['ColourConversion::rgb_to_xyz', 'ColourConversion::xyz_to_rgb', 'ColourConversion::bradford', 'combined_rgb_to_xyz'])

prop('C28', 'The synchronisation signal carries its bits, CRCs and packets exactly',
     'Bits are written in the order given and words most significant bit first with exactly as many bits as asked for; a CRC covers exactly the bits written between its start and its end, starts from zero, and cannot be started twice or written without being started. '
     'Each bit becomes four samples (half a cycle for 0, a whole cycle for 1) whose phase goes on without a jump from bit to bit and from one block of data to the next, starting with the first bit of each block. '
     'The packets of a frame fill all of its samples at every supported edit rate.',
     ['inputs', 'histories'], 'all bit sequences, blocks of data, widths, polynomials and edit rates',
     'A wrong phase or CRC shows only after particular bits have gone before; the only test needs reference files.',
     ['src/bitstream.cc', 'src/fsk.cc', 'src/sound_asset_writer.cc'],
     [mech('Bitstream', 'src/bitstream.cc'), mech('FSK::get, FSK::set_data', 'src/fsk.cc'), mech('SoundAssetWriter::create_sync_packets', 'src/sound_asset_writer.cc')],
     'exhaustive evaluation of the transition function of the modulator over all of its reachable states against the machine of the standard; value flow through one generic iteration of the bit-writing loops; sum of the field widths of a packet for each edit rate by constant propagation',
     'The members that make up the state are found from the class. CRC arithmetic itself is that of boost and is trusted.',
     state=['Bitstream::_data', 'Bitstream::_crc', 'FSK members'], observe=['Bitstream::get', 'FSK::get'])

prop('C27', 'Names made from a format are safe and hold the values given',
     'A name made from a format is each character of the format in order, except that each key with a value that is not to be ignored is replaced by its value, followed by the given suffix unchanged. '
     'No directory separator, colon or space from the format or from any value is in the name: separators and colons become hyphens and spaces underscores, and all other characters are kept.',
     ['inputs'], 'all formats, values, suffixes and sets of keys to ignore',
     'There is no test; a value with a separator in it puts a file into another directory.',
     ['src/name_format.cc', 'src/name_format.h'],
     [mech('NameFormat::get', 'src/name_format.cc')],
     'value flow through one generic iteration of the loops over the format and over a value, for each of the 256 characters and each combination of the conditions asked; the appended character and the advance of the loop are compared with the definition',
     'Decided for the build of this platform; the further replacements on Windows are not analysed.',
     observe=['NameFormat::get'])

prop('C08', 'File operations act on the paths they are given, as their names say',
     'Each file operation that the library offers does the operation that its name says, once, on the paths given and in the order given, tells of errors in the way asked for (error code or exception), replaces an existing file only if that was asked for, and gives back the result. '
     'Iterators give every entry of the directory asked for, and a path is made canonical without losing a link followed by "..". '
     'All file operations of the library go through these functions, so that long paths work everywhere.',
     ['inputs', 'configurations'], 'all paths, error codes and copy options; all call sites of the library',
     'Tests exercise only a few of the functions and run only on systems without a limit of path lengths.',
     ['src/filesystem.cc', 'src/filesystem.h', 'src/data.cc', 'src/combine.cc', 'src/search.cc', 'src/asset.cc'],
     [mech('dcp::filesystem', 'src/filesystem.cc')],
     'evaluation of each wrapper along each combination of its conditions to the one call of the operation of the same name, with the flow of each parameter into its argument and of the result into the return value; who-may-call rule for file operations over all functions of the library',
     'The operations of boost::filesystem are trusted. Conversion of paths on Windows is not analysed, only that each path goes through it.',
     observe=['dcp::filesystem functions'])

prop('C05', 'Failures of reading and writing files are reported, never passed over',
     'A function that reads or writes a file returns normally only if the file could be opened and everything asked for was read or written and, when writing, closed without an error; otherwise it throws. '
     'The data written are exactly the data of the object, replacing what was in the file. '
     'Data written via a temporary file appear under the final name only once all of them have been written, so that no crash or failure leaves a part of them there.',
     ['fault_sequences', 'crash_points', 'inputs'], 'all functions that open files; all short reads, short writes and errors; all lengths',
     'Tests run with enough space and whole files, where an ignored result makes no difference.',
     ['src/file.cc', 'src/data.cc', 'src/array_data.cc', 'src/util.cc', 'src/interop_text_asset.cc', 'src/encrypted_kdm.cc', 'src/mono_j2k_picture_frame.cc'],
     [mech('File::checked_read, File::checked_write', 'src/file.cc'), mech('Data::write, Data::write_via_temp', 'src/data.cc')],
     'must-have-asked analysis: every function that opens a file is evaluated along each combination of its conditions, and a normal return needs the conditions "opened", "as many as asked for" and "closed" to have been asked and true; loop invariant of checked_read from one generic iteration; order of calls for the temporary file',
     'XML documents are written by libxml++ and MXF files by asdcplib, whose errors are not part of this. The text reports are written without looking at errors, on purpose of their interface (puts).',
     observe=['exceptions thrown by readers and writers'])

prop('C07', 'Handles and buffers have one owner, which releases them exactly once',
     'An open file is closed exactly once, by the object that holds it: moving hands over the handle, path and error and leaves the other object without one, taking the handle gives it up, and assigning closes what was open before; the file is only used while it is open. '
     'A scope guard runs its function exactly once at the end of its scope unless it has been cancelled, also if it has been moved. '
     'No class that frees what a raw pointer points to can be copied so that two objects free the same thing or a buffer keeps another size.',
     ['histories', 'programs'], 'all sequences of opening, moving, taking, closing and destroying; all classes of the library with a destructor that frees something',
     'Tests move files and guards in one or two ways; a second close or a leak does not fail a test.',
     ['src/file.cc', 'src/file.h', 'src/scope_guard.h', 'src/key.cc', 'src/certificate.cc', 'src/encrypted_kdm.cc', 'src/crypto_context.h', 'src/asset_reader.h', 'src/openjpeg_image.h', 'src/ffmpeg_image.h', 'src/pdf_formatter.h'],
     [mech('File', 'src/file.cc'), mech('ScopeGuard', 'src/scope_guard.h'), mech('Key::operator=', 'src/key.cc')],
     'typestate of the handle over each operation and each combination of its conditions; ownership rule over every class with a destructor that frees a raw pointer (deleted or own copy operations, which share nothing)',
     'Objects held by smart pointers are released by these and are not analysed.',
     state=['File::_file', 'ScopeGuard::_function'], observe=['number of closes'])

prop('C25', 'What is set is what is got',
     'After a property of an object has been set, asking the object for that property gives the value that was set, and what the object says of its other properties has not changed; after it has been unset there is no value. '
     'An object made with given properties has exactly these, each under its own name.',
     ['inputs', 'histories'], 'all classes of the library; all setters, constructors and getters; all values',
     'There are some 130 setters and 400 constructor parameters of the same few types (texts, identifiers, numbers, colour points), which are easily exchanged; tests set few of them and read back fewer.',
     ['src/colour_conversion.h', 'src/colour_conversion.cc', 'src/local_time.h', 'src/utc_offset.h', 'src/cpl.h', 'src/cpl.cc', 'src/reel_asset.h', 'src/text_asset.h', 'src/smpte_text_asset.h', 'src/asset.h', 'src/verify.h', 'src/text_string.cc', 'src/decrypted_kdm.h'],
     [mech('set_*(), unset_*(), constructors and the functions that give the properties', 'src/*.h')],
     'composition of member summaries: the state after each setter or constructor (value terms for every member, on each combination of its conditions) is the entry state of the evaluation of the getter, whose value must be the argument; entries of maps by agreement of the keys stored and looked for',
     'Values that are converted (languages to text, paths to absolute paths) need only be made from the one given. Constructors that read files are analysed only where the file does not matter.',
     observe=['results of the getters'])


prop('C90', 'Transfer functions and conversions are numerically accurate',
     'Transfer function tables and colour conversions give values within half a unit of the least significant bit of those of the published curves.',
     ['inputs'], 'all curves, bit depths and colours', 'Tests sample a few values.',
     ['src/gamma_transfer_function.cc', 'src/rgb_xyz.cc'], [mech('make_lut()', 'src/transfer_function.cc')], None, '')

prop('C91', 'Compressing and decompressing a picture keeps its colours',
     'A picture that is compressed and decompressed differs from the original only as much as its bandwidth allows.',
     ['inputs'], 'all pictures and bandwidths', 'Tests use a few pictures.',
     ['src/j2k_transcode.cc'], [mech('compress_j2k(), decompress_j2k()', 'src/j2k_transcode.cc')], None, '')

prop('C92', 'Documents that are written are valid against their schemas',
     'Every playlist, packing list, asset map, key delivery message and subtitle file that is written is valid against the schema of its standard.',
     ['inputs'], 'all values of all properties', 'Tests validate a few documents.',
     ['src/cpl.cc', 'src/pkl.cc', 'src/asset_map.cc', 'src/encrypted_kdm.cc'], [mech('write_xml(), as_xml()', 'src/*.cc')], None, '')

prop('C93', 'Frames that are written to an MXF file are read back as they were',
     'Picture, sound, text and Atmos frames that are read from an MXF file, with the right key if it is encrypted, are those that were written to it, in the same order.',
     ['inputs', 'histories'], 'all frames and keys', 'Tests write a few files.',
     ['src/asset_reader.h', 'src/sound_asset_writer.cc', 'src/j2k_picture_asset_writer_common.cc'], [mech('readers and writers of assets', 'src/*.cc')], None, '')

prop('C94', 'Signatures and digests verify exactly if nothing has been changed',
     'A signed document verifies with the chain that signed it, and does not if any signed part of it has been changed.',
     ['inputs'], 'all documents, chains and changes', 'Tests change a few bytes.',
     ['src/certificate_chain.cc', 'src/util.cc'], [mech('CertificateChain::sign(), make_digest()', 'src/certificate_chain.cc')], None, '')

prop('C95', 'An interrupted write never leaves a damaged package that looks complete',
     'If writing a package stops at any point, what is on the disk is either the old package or is recognised as incomplete.',
     ['crash_points'], 'all points of interruption', 'Tests do not interrupt writing.',
     ['src/dcp.cc', 'src/cpl.cc'], [mech('DCP::write_xml()', 'src/dcp.cc')], None, '')
