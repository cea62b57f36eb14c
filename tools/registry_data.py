NOT_APPLICABLE = []

CODEC_WHY = ("Unit tests pin one or two recorded byte strings per record; the guarantee is over all field "
             "values and all list shapes, in particular the numeric code-length limits, negative values, absent "
             "optional fields, empty lists, several masters and both writer platforms.")

prop("C01", "Integer code is lossless, minimal where defined, and refuses cut-off input",
     "Every integer that fits into 32 bits is encoded by the library to bytes that decode to the same integer, in the same "
     "byte form FontLab uses for that magnitude, and every valid encoding of an integer decodes to its defined value wherever it "
     "stands in a sequence. Decoding consumes exactly the bytes of the value, and input that ends inside a value is reported as an error instead of yielding a number; this error can be told from the one for the regular end of the input.",
     INP, "all integers in a dense range and around every power of two; all 1- and 2-byte prefixes; all short sequences of boundary values; all cut points",
     "Tests sample about a dozen values; the sign and length switches at 107/108, 363/364, 1131/1132 need every value and every following value.",
     ["src/vfbLib/parsers/base.py", "src/vfbLib/compilers/base.py"],
     [("EncodedValue decoding", "parsers/base.py read_value"), ("encoding", "compilers/base.py write_value")],
     ["decoded numbers, encoded bytes, stream position, exceptions"])

prop("C02", "Reading and rewriting a file reproduces its records and bytes",
     "A file read and written without changes comes out byte-identical, whatever sequence of record identifiers and payload sizes it contains. "
     "The records seen after reading are exactly those in the file, in order, with their exact payloads, and a record built or resized in memory is framed with the size form its payload needs.",
     INP, "all sequences of up to 3-4 records over an alphabet of identifiers and sizes around the 16/32-bit limits; every payload length in a range; every identifier",
     "Tests read a few sample files; size-form switches at 65535/65536, the end marker, kern pair sizes depending on master count and zero-length records need enumeration.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py", "src/vfbLib/vfb/header.py"],
     [("record framing", "vfb/entry.py _read_entry, header"), ("file loop", "vfb/vfb.py read_stream, write_bytes"), ("file header", "vfb/header.py")],
     ["bytes written, list of records"])

prop("C03", "Damaged or cut-off files are refused, never silently misread",
     "Reading a file that ends inside the header, a record header or a record payload raises an error, and any other byte change either is refused or yields exactly the records the file framing defines. "
     "Reading terminates and never delivers a record whose payload is shorter than the file says.",
     INP + ["fault_sequences"], "every truncation point of the sample files and every single-byte change of a synthetic file (all pairs of framing bytes in the thorough tier)",
     "No test feeds damaged files; the property is about every cut point and every changed byte.",
     ["src/vfbLib/vfb/entry.py", "src/vfbLib/vfb/header.py", "src/vfbLib/vfb/vfb.py"],
     [("end of file detection", "vfb/entry.py read, _read_entry"), ("header parse", "vfb/header.py read")],
     ["exception or list of records"])

prop("C04", "Looking at some records leaves all other records byte-identical on save",
     "Whatever subset of records, glyphs or whole-file read operations is used on an opened file, saving it afterwards writes every record that was not looked at byte for byte as it was, keeps the order of records, "
     "and writes records that were looked at with the same meaning.",
     ["inputs", "histories"], "every record of every sample file looked at alone, all subsets of a 10-record file, every read-only operation",
     "Tests decompile whole files or single records; which subset was touched before saving is not explored.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py", "src/vfbLib/vfb/glyph.py"],
     [("lazy decompilation", "vfb/entry.py decompile, compile"), ("glyph access", "vfb/vfb.py __getitem__")],
     ["bytes written, record meanings"])

prop("C05", "Any sequence of edits and saves writes exactly the current contents",
     "After any sequence of decoding, encoding, replacing, changing in place, adding, removing, reordering, saving and reloading records, a saved file contains exactly the records the sequence defines, in order, with their latest contents. "
     "Saving twice in a row writes the same bytes, and saving does not change what the records mean.",
     ["histories"], "all sequences of up to 3 (thorough 4) of 28 operations and up to 4 (6) of a core set on three initial files",
     "Tests perform single edits; stale caches (sizes, headers, compiled data) need specific sequences.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py"],
     [("two-form record data", "vfb/entry.py data, header, size, compile, decompile"), ("save", "vfb/vfb.py write_bytes")],
     ["bytes written after each save, record contents after each step"])

prop("C06", "Font-level number and option records decode and encode without loss",
     "Decoding any font-level numeric record (versions, sizes, metrics, range and option bits, PANOSE, PCLT, VDMX, gasp, font and export options, mapping and window state) gives the values stored in it, and encoding these values "
     "gives a record that stores the same values; bits, signs and list lengths are kept for the whole value range of each field.",
     INP, "all single-field deviations over boundary domains, all field pairs over three values, all short list shapes",
     CODEC_WHY, ["src/vfbLib/parsers", "src/vfbLib/compilers"],
     [("font numeric parsers", "parsers/numeric.py, options.py, truetype.py, fl3.py"), ("compilers", "compilers/numeric.py, options.py, truetype.py")],
     ["decoded structure; encoded bytes; re-decoded structure"])

prop("C07", "Text, name and feature records keep every character and line",
     "Decoding and encoding any text-like record (names, notes, copyright strings, name table records, OpenType classes and feature code, location and label lists, custom data) keeps every character representable in the file's encoding, every line and every list element, "
     "for files written on macOS and on Windows.",
     INP, "all strings of the alphabet up to the stated length, all byte values, both platforms, all list shapes up to the stated size",
     CODEC_WHY, ["src/vfbLib/parsers/text.py", "src/vfbLib/compilers/text.py"],
     [("string and name record codecs", "parsers/text.py, compilers/text.py"), ("OpenType strings", "parsers/text.py OpenTypeStringParser")],
     ["decoded structure; encoded bytes"])

prop("C08", "PostScript and multiple master records decode and encode without loss",
     "Decoding any PostScript or multiple-master record (blue values, stem widths, hinting options, axis names, counts and mappings, primary instances, master names, locations and settings, per-master metrics) gives the stored values per master, and encoding gives a record with the same values, "
     "for every supported number of masters, axes and zones.",
     INP, "all single-field deviations over boundary domains; master counts 1..16, axis counts 0..4; list shapes up to the stated size",
     CODEC_WHY, ["src/vfbLib/parsers/ps.py", "src/vfbLib/parsers/mm.py", "src/vfbLib/compilers/ps.py", "src/vfbLib/compilers/mm.py"],
     [("PS and MM codecs", "parsers/ps.py, parsers/mm.py, compilers/ps.py, compilers/mm.py")],
     ["decoded structure; encoded bytes"])

prop("C09", "TrueType hinting records decode and encode without loss",
     "Decoding any TrueType record (stems, stem pixel snaps, zones and zone deltas, hinting options, cvt, prep, fpgm programs, glyph hinting commands) gives the stored values, and encoding gives a record with the same values, "
     "for every stem and zone count and every hinting command.",
     INP, "all commands with boundary operands, all command sequences up to the stated length, all stem/zone list shapes up to the stated size",
     CODEC_WHY, ["src/vfbLib/parsers/truetype.py", "src/vfbLib/compilers/truetype.py", "src/vfbLib/truetype.py"],
     [("TrueType codecs", "parsers/truetype.py, compilers/truetype.py"), ("command tables", "src/vfbLib/truetype.py")],
     ["decoded structure; encoded bytes"])

prop("C10", "Glyph outline records decode and encode without loss",
     "Decoding a glyph record gives its name, metrics, outline nodes with types, flags and points, components, hints, guides, kerning, TrueType commands, sketch, imported TrueType data and binary tables exactly as stored, for each master; "
     "encoding this structure gives a record that decodes to the same structure, whichever parts are present and in whatever order they are stored.",
     INP, "all node type sequences up to the stated length; all subsets of parts; 1-4 masters; boundary coordinates; all part orders of a small set",
     CODEC_WHY, ["src/vfbLib/parsers/glyph.py", "src/vfbLib/compilers/glyph.py"],
     [("glyph codec", "parsers/glyph.py GlyphParser, compilers/glyph.py GlyphCompiler")],
     ["decoded structure; encoded bytes"])

prop("C11", "Records accompanying a glyph decode and encode without loss",
     "Decoding and encoding any record that accompanies a glyph (links, masks and mask metrics, anchors, supplementary and MM anchors, guides and guide properties, unicodes, GDEF data, hinting options, origin, mark colour, notes, custom data, OpenType VSB data) keeps every value per master.",
     INP, "all single-field deviations over boundary domains and all list shapes up to the stated size, for 1-4 masters",
     CODEC_WHY, ["src/vfbLib/parsers/glyph.py", "src/vfbLib/compilers/glyph.py", "src/vfbLib/parsers/guides.py", "src/vfbLib/compilers/guides.py"],
     [("glyph companion codecs", "parsers/glyph.py, parsers/guides.py, compilers/glyph.py")],
     ["decoded structure; encoded bytes"])

prop("C12", "Bitmap images keep every pixel through decoding and encoding",
     "Decoding a background image or glyph bitmap gives the picture stored in the file, pixel by pixel, for every width and height, both compression forms and both writer platforms; encoding it gives a record that decodes to the same picture.",
     INP, "all small bitmaps exhaustively, all run patterns at row-padding boundaries, both platforms",
     "Tests decode two sample images; row padding, run-length boundaries, the literal/compressed switch and inversion need every size.",
     ["src/vfbLib/parsers/bitmap.py", "src/vfbLib/compilers/bitmap.py"],
     [("bitmap codec", "parsers/bitmap.py, compilers/bitmap.py")], ["decoded structure; encoded bytes"])

prop("C13", "Decoding damaged record payloads ends in an error or a consistent value",
     "Decoding any damaged record payload terminates, and either raises an error and leaves the record's bytes as they were, or gives a structure which, when it can be written, reads back as the same structure. A payload that was cut off or has extra bytes is only accepted if it is written back unchanged, apart from zero padding; every failure is noted in the font object until decoding it succeeds.",
     ["inputs", "fault_sequences"], "all prefixes, one-byte extensions, single-byte deletions and single-byte changes of payloads of every record type",
     "No test decodes damaged payloads; hangs, partial structures and lost bytes need every cut and every change.",
     ["src/vfbLib/parsers", "src/vfbLib/vfb/entry.py"],
     [("decompile keeps data on failure", "vfb/entry.py decompile"), ("cut-off detection", "parsers/base.py StreamReader")],
     ["exception, record data before and after, re-decoded structure"])

prop("C14", "A save that fails leaves the existing file intact and the data usable",
     "When a file cannot be saved because a record holds a value that cannot be encoded, the save raises an error and the file that existed at the target path still has its previous contents. After the value is corrected, saving succeeds and writes all current contents. A save that succeeds has written records that can be read again and hold the texts and numbers as they were set.",
     ["fault_sequences", "histories"], "every record type with several kinds of unwritable values, at every position class and target state",
     "No test makes a save fail.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py"],
     [("compile before open", "vfb/vfb.py write")], ["file contents after the failure and after the retry"],
     level="fault_enumeration")

prop("C15", "Open font objects are independent of each other and of earlier files",
     "Operations on one font object never change what another one reads, decodes, draws or writes, in any interleaving; a change to the decoded structure of one record never shows in another record; and a font object that reads a new file behaves exactly like a fresh object reading that file, whatever was done before.",
     ["schedules", "histories"], "all interleavings of two operation scripts for all ordered pairs of 7 files; all sequences of 3-4 files with every operation in between; all record contents of C06-C12 three times in two files, one copy changed",
     "Tests open one file per test; encodings, master counts and caches leaking between objects or reads need specific interleavings.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py", "src/vfbLib/parsers/base.py"],
     [("per-file encoding", "vfb/entry.py id setter"), ("clear", "vfb/vfb.py clear")], ["decoded structures, bytes written, drawn outlines"],
     note="Interleavings are of whole API calls in one thread; thread preemption inside a call is out of scope (the library makes no thread-safety promise).")

UFOF = ["src/vfbLib/ufo/builder.py", "src/vfbLib/ufo/glyph.py"]

prop("C16", "Glyphs are found by name and drawn with exactly their stored outlines",
     "Looking up a glyph by name gives the glyph that carries this name, and drawing a glyph, of the font or of one of its masters, with a segment or point pen gives exactly the contours, curves, off-curve points and components stored in the glyph record, for every well-formed outline. If a record is damaged, a lookup gives all glyphs or an error, every time it is asked, and never only a part of the glyphs.",
     INP, "all node type sequences up to the stated length, all contour splits and closed flags, all masters, all component lists; all name lists up to the stated size",
     "Tests draw a handful of sample glyphs; implied points, trailing off-curve points, closing lines and masters need all outline shapes.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/glyph.py", "src/vfbLib/vfb/pens.py"],
     [("glyph access", "vfb/vfb.py __getitem__, glyphSet, get_masters"), ("drawing", "vfb/glyph.py draw, drawPoints")],
     ["pen calls received, replayed into a reference geometry"])

prop("C17", "Drawing into a glyph is what is read back, drawn and saved afterwards",
     "After any sequence of clearing, drawing with point and segment pens, adding components, reading, saving and reloading, a glyph has exactly the contours and components drawn since it was last cleared, and drawing it, saving it and reading it again gives these outlines, with coordinates and component offsets rounded; a contour may begin at any point; one with cubic curves, or a component that is rotated or skewed, is refused without changing the glyph.",
     ["histories"], "all sequences of editing operations up to the stated depth on glyphs of several states, and all contours of up to the stated number of points",
     "No test edits a glyph more than once; stale caches, contours merged twice and operations on closed contours need sequences.",
     ["src/vfbLib/vfb/glyph.py", "src/vfbLib/vfb/pens.py"],
     [("editing", "vfb/glyph.py clear, getPen, getPointPen"), ("pens", "vfb/pens.py")],
     ["pen calls, record structure and saved bytes after each operation"],
     note="Smooth flags of drawn points are not claimed.")

prop("C18", "Redrawn masters of a multiple master glyph are merged without loss",
     "Redrawing any subset of the masters of a multiple-master glyph, in any order and with saves in between, changes exactly the outlines of these masters; masters whose structure does not fit together are refused and never saved partially.",
     ["histories", "schedules"], "all subsets, orders and interleavings of drawing masters, rounds of saving in between, all pairs of structures up to the stated size",
     "Tests redraw each master once, in order; other orders, subsets, repetitions and mismatching structures are not sampled.",
     ["src/vfbLib/vfb/glyph.py", "src/vfbLib/vfb/pens.py"],
     [("merging of masters", "vfb/glyph.py, vfb/pens.py")], ["glyph structure, saved bytes, exception"])

prop("C19", "UFO masters have the outlines stored in the VFB and stay compatible",
     "Each UFO master has for each glyph exactly the contours stored for that master in the VFB, with segment types, coordinates, smooth flags and off-curve points, whatever options are used; the point structure of a glyph is the same in all masters.",
     INP, "all node type sequences up to the stated length, all subsets of closing points, all smooth flags, 1, 2, 4, 8 masters, default/minimal/no-hints conversion, boundary coordinates",
     "Tests convert a few sample fonts; closing points that coincide in only some masters, trailing off-curve points and the like need all shapes.",
     UFOF + ["src/vfbLib/ufo/paths.py"], [("outline conversion", "ufo/paths.py, ufo/builder.py")], ["points of the UFO glyphs"])

prop("C20", "UFO masters have the advance widths and components stored in the VFB",
     "Each UFO master has for each glyph the advance width, height and component offsets and scales stored for that master, and each component refers to the glyph with the stored index.",
     INP, "all component lists up to the stated size over all base glyphs, boundary offsets and scales, 1-8 masters, glyphs with and without outlines",
     "Tests convert a few sample fonts; wrong masters, indices and duplicate names need the combinations.",
     UFOF, [("metrics and components", "ufo/glyph.py, ufo/builder.py")], ["width, height and components of the UFO glyphs"])

prop("C21", "UFO masters keep anchors, guidelines and mask layers of the VFB",
     "Each UFO master has the anchors (position of that master), glyph and font guidelines (position, angle, name, colour) and mask outlines stored in the VFB, attached to the right glyph.",
     INP, "all anchor and guide lists up to the stated size, boundary values and angles, all property subsets, all masks of the outline grammar, 1-8 masters, all record orders",
     "Tests convert a few sample fonts; property indices, masters and record orders need the combinations.",
     UFOF + ["src/vfbLib/ufo/guides.py"], [("anchors, guides, masks", "ufo/glyph.py, ufo/guides.py, ufo/builder.py")], ["anchors, guidelines, public.background layer"])

prop("C22", "UFOs contain every glyph once, in order, with everything attached to it",
     "The UFO has one glyph per glyph of the VFB, in the same order and with the same name (repeated names get a suffix), and code points, mark colour, note, user data, background image and bitmaps are attached to the glyph they were stored with, and to no other one.",
     INP, "all name lists up to the stated size, all code point lists, all hues, all subsets of companion records in several orders",
     "Tests convert a few sample fonts; lost, repeated or shifted data needs name and record combinations.",
     UFOF, [("glyph set and companion data", "ufo/builder.py, ufo/glyph.py")], ["glyph order, attributes and libs of the UFO glyphs"])

prop("C23", "UFOs keep the TrueType hinting of the VFB, attached to the right points",
     "Each glyph's TrueType program in the UFO has the stored commands in order, each referring by label to the very point (or metrics or component point) it referred to in the VFB, with the stored stem, zone, alignment and delta parameters; global stems, zones, rounding, control values and programs are those stored.",
     INP, "all commands with all combinations of point references and parameters, all pairs of commands, all outline shapes with merged points, all stem and zone tables up to the stated size, 1 and 2 masters",
     "Tests convert a few sample fonts; labels, renamed or merged points and boundary parameters need the combinations.",
     UFOF + ["src/vfbLib/ufo/tth.py"], [("TrueType hinting", "ufo/tth.py, ufo/builder.py, ufo/glyph.py")],
     ["TT programs, point names and the TT lib of the UFO masters"])

prop("C24", "UFOs keep PostScript hints, links and hint replacement of the VFB",
     "Each UFO master has for each glyph the stored hints and links (as the stem edges of that master) and the hint replacement program, with each hint set attached by label to the point it starts at; without PostScript hints nothing of it is written.",
     INP, "all hint and link lists up to the stated size and value grid, all hint mask programs up to the stated length, all outline shapes with a merged closing point, 1-4 masters",
     "Tests convert a few sample fonts; hint indices, masters, ghosts and labels on merged points need the combinations.",
     UFOF + ["src/vfbLib/ufo/pshints.py"], [("PostScript hints", "ufo/pshints.py, ufo/builder.py, ufo/glyph.py")],
     ["hint sets, point names and libs of the UFO glyphs; resolved hints of the font object"])

prop("C25", "UFOs give every glyph pair the kerning stored in the VFB, with its groups",
     "In each UFO master, every pair of glyphs has the kerning that the pairs and kerning classes of the VFB give it (exceptions included), all groups that the kerning needs exist, each class is written once to the place its kind and the options demand, and feature code refers to the renamed classes.",
     INP, "all pairs of class configurations over 3 glyphs x all sets of stored pairs up to the stated size x kinds of values; all lists of classes up to the stated size x all options",
     "Tests compare a few sample fonts; exceptions, zero values, key glyphs and options interact.",
     UFOF + ["src/vfbLib/ufo/kerning.py", "src/vfbLib/ufo/groups.py", "src/vfbLib/ufo/features.py"],
     [("kerning", "ufo/kerning.py"), ("groups", "ufo/groups.py, ufo/builder.py get_ufo_masters"), ("feature code", "ufo/features.py")],
     ["kerning of each glyph pair by UFO lookup, groups, features, libs of the UFO masters"])

prop("C26", "Each master becomes one UFO, and the designspace places and finds all of them",
     "A font with n axes gives 2^n UFOs, one per master in order; the designspace has the stored axes, mappings, master locations and instances, and the written document finds all of its UFOs, whatever the output folder, order of records or repetition.",
     INP, "0-4 axes, all axis names, 0-10 mappings per axis, all orders of master records, all counts of master names, all instance lists of a value grid, output folders and formats",
     "Tests convert one or two multiple master fonts to one folder.",
     UFOF + ["src/vfbLib/ufo/designspace.py"], [("designspace", "ufo/builder.py get_designspace, write"), ("axes", "ufo/builder.py add_axis_mappings")],
     ["UFO list, designspace object, designspace file read back from other folders"])

prop("C27", "The font info of UFO masters has the values stored in the VFB",
     "Each font information record of the VFB arrives in the UFO attribute it stands for, in every master or in the master it belongs to, independent of which other records there are and in which order; the values of weight, width and style are always valid.",
     INP, "all values of the boundary domain of 44 records and of the TrueType info keys, all pairs of records in both orders, all style flags, all counts of zones and snaps, 1-4 masters, 3 conversions",
     "Tests compare a few sample fonts, in which most values are default.",
     UFOF + ["src/vfbLib/ufo/info.py", "src/vfbLib/ufo/time.py"], [("font info", "ufo/info.py"), ("master info", "ufo/builder.py get_master_info")],
     ["info attributes of the UFO masters, fontinfo.plist"],
     note="Values that UFO does not allow are not claimed, except for weight, width and style.")

prop("C29", "vfb2json writes the JSON file with every record of the VFB, or none at all",
     "The JSON file that vfb2json writes holds the header and every record of the VFB in order, with its name and its contents (decoded, or the stored bytes with -d, or after a round trip with -r), goes to the file that the arguments name, and a failing export leaves an existing file alone; the VFB stays as it is.",
     INP, "all record contents of the quick families of C06-C12 x 3 exports; all combinations of 5 options x names x folders x existing output; all sample fonts",
     "Tests export a few sample fonts with default options to a fixed place.",
     ["src/vfbLib/json.py", "src/vfbLib/cmdline.py", "src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/entry.py"],
     [("JSON export", "json.py save_vfb_json, vfb/vfb.py as_dict"), ("command line", "cmdline.py vfb2json")], ["the JSON file, the folder afterwards"],
     note="The effect of -m and -u is not claimed.")

prop("C31", "vfb2tth exports the TrueType hinting stored in the VFB",
     "The files vfb2tth writes hold, for each hinted glyph, the stored commands in order with the point, stem, zone and delta parameters stored in the VFB, and the stored stem, zone and rounding tables and settings; every stem and zone that a command refers to exists in them under that name.",
     INP, "all commands with all parameters, all command sequences up to the stated length, all stem and zone name lists over a menu with duplicates, all rounding tables, deltas and settings; 3 formats",
     "Tests export one or two sample fonts; duplicate names, missing tables and boundary parameters need the combinations.",
     ["src/vfbLib/tth.py", "src/vfbLib/ufo/tth.py"], [("TTH export", "tth.py"), ("TrueType hinting", "ufo/tth.py")], ["the exported files and the extracted structure"])

prop("C30", "vfbdiff shows exactly the differences between two fonts, and nothing else",
     "The output of vfbdiff, as text or as HTML, is the line difference of the decompiled contents of the two files: applied to the first one it gives the second one, every differing record shows in it, equal contents give no difference, and neither file changes.",
     INP, "all ordered pairs of fonts that differ by one section, record, glyph or value; all pairs of neighbouring record contents of C06-C12; text and HTML",
     "Tests have no diff of two different files; a difference that does not show needs pairs of all kinds of records.",
     ["src/vfbLib/diff.py", "src/vfbLib/vfb/vfb.py", "src/vfbLib/json.py"],
     [("diff", "diff.py diffvfb"), ("contents", "vfb/vfb.py as_dict")], ["printed diff, HTML file, the folder afterwards"])

prop("C32", "vfb3ufo writes the converted font where it is told to, and changes nothing else",
     "vfb3ufo writes the UFO or UFOZ, JSON or designspace files that the arguments name, with the content of the conversion with the given options, independent of earlier exports and of the hash seed; existing files stay as they are unless overwriting is asked for, and a failing export leaves them alone.",
     ["inputs", "histories"], "all option sets x formats x fonts with sections left out; all names x output arguments x formats x existing outputs x overwriting; all pairs of exports to the same place",
     "Tests convert a few sample fonts to a fixed empty place with a few options.",
     ["src/vfbLib/ufo/vfb2ufo.py", "src/vfbLib/ufo/builder.py", "src/vfbLib/cmdline.py"],
     [("command line", "cmdline.py, ufo/vfb2ufo.py"), ("writing", "ufo/builder.py write")],
     ["the whole folder before and after each command"],
     note="A failure partway may leave new files; only existing ones must stay.")

prop("C33", "Dropping records and minimal mode leave out just that data and nothing else",
     "Reading a font with dropped record types, or only its header, gives the font without these records and otherwise the same records, glyphs and written bytes; minimal conversion gives the conversion of the font without guides, masks, images, bitmaps, marks and notes.",
     INP, "all single and pairs of dropped record types for reading and conversion on fonts with a bit of everything; all pairs of left out sections x option sets in minimal mode; all sample fonts",
     "Tests drop no records and compare the minimal mode of one font.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/ufo/builder.py", "src/vfbLib/ufo/glyph.py"],
     [("dropped records", "vfb/vfb.py read"), ("minimal mode", "ufo/builder.py, ufo/glyph.py, ufo/info.py")],
     ["structure, written bytes and UFO masters compared with those of the font without the data"])

prop("C35", "Converting, drawing or exporting a font does not change it, in any sequence",
     "After any sequence of conversions, drawing, exports, compiling and writing, a font has the data that was read, writes the same file, and each operation gives the result that it gives on a freshly read font. Editing one of the resulting UFOs changes neither the font nor the other UFOs.",
     ["histories"], "all sequences of 12 operations up to the stated length on fonts with a bit of everything with 1-4 masters, with sections left out, and on all sample fonts",
     "Tests do one operation on a freshly read font; data changed in place by an operation shows only in the next one.",
     ["src/vfbLib/vfb/vfb.py", "src/vfbLib/vfb/glyph.py", "src/vfbLib/ufo/builder.py", "src/vfbLib/ufo/glyph.py", "src/vfbLib/ufo/info.py", "src/vfbLib/tth.py"],
     [("operations", "vfb/vfb.py, vfb/glyph.py, ufo/builder.py, json.py, tth.py")], ["results of each operation, structure and written bytes afterwards"])

prop("C34", "vfbcu2qu writes the same font with quadratic outlines within the tolerance",
     "The file vfbcu2qu writes has in every master the contours of the input, reversed, with the same start and on-curve points and each cubic curve replaced by a quadratic spline within the stated tolerance, compatible in all masters; other glyph data and all other records but links stay as they are; it goes where the arguments say, replaces nothing unasked, and the input is not changed.",
     INP, "all contours up to the stated number of segments x closing points x open/closed in 1, 2, 4 masters; cubics over a grid of control points x tolerances; units x tolerances; all output arguments x existing output x overwriting",
     "Tests convert one or two fonts; wrong masters, start points, tolerances and lost data need the combinations.",
     ["src/vfbLib/cu2qu.py", "src/vfbLib/vfb/glyph.py", "src/vfbLib/vfb/pens.py", "src/vfbLib/vfb/info.py"],
     [("command line", "cu2qu.py"), ("reading and drawing outlines", "vfb/glyph.py, vfb/pens.py"), ("tolerance", "vfb/info.py unitsPerEm")],
     ["nodes and records of the written file, the folder afterwards"],
     note="PostScript hints and links of converted glyphs are dropped by design; mask outlines and TrueType hints stay.")

prop("C36", "yuri encodes and decodes any list of values given on the command line",
     "yuri prints the encoding of the given values, short or long, signed or unsigned, and decodes the given bytes to the values they stand for; decoding what it encoded gives the values back, and what cannot be encoded or is damaged gives an error.",
     INP, "all values of the short forms, boundary values of the long form, sequences of boundary values, all bytes and byte pairs, cuts x all options", "There is no test of it.",
     ["src/vfbLib/value.py", "src/vfbLib/compilers/value.py", "src/vfbLib/parsers/value.py"], [("command line", "value.py")], ["printed output, exit"])

prop("C28", "Time stamps, bit lists, hint data and split feature code convert exactly",
     "Every FontLab time stamp is the date it stands for, and every date from 1970 on gives its time stamp, in any time zone; bit lists and their values convert both ways; Adobe hint data of version 1 gives the same hint sets in version 2, with normalized stems; feature code split into features has every line once, in order.",
     INP, "the first and last seconds of every day, all seconds around the ends of the value range, all bit lists of 12 bits and 3 of 33 bits, all hint sets and feature code up to the stated size",
     "Tests convert six dates and one hint set.",
     ["src/vfbLib/ufo/time.py", "src/vfbLib/helpers.py", "src/vfbLib/ufo/pshints.py", "src/vfbLib/parsers/text.py"],
     [("feature code", "parsers/text.py build_fea_dict"), ("time stamps", "ufo/time.py"), ("bit lists", "helpers.py"), ("hint data", "ufo/pshints.py update_adobe_hinting, normalize_hint")], ["return values"])
