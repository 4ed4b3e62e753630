#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are painful to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R = "src/ringhopper/src/"
PR = "src/ringhopper-primitives/src/"
I = "src/invader/src/"

p("P01", "Tag files of every group round-trip byte for byte",
  "A tag file in canonical form, of any of the supported groups, is read into values which are exactly those in the file at the offsets the tag definitions prescribe, and is written back byte for byte. Fields which tag files do not carry are dropped without moving or changing anything else, and changing one value in memory changes exactly the bytes of that value in the written file (and the checksum).",
  ["inputs"], "all groups x all field positions x all values of each field's small domain x all small shapes (array counts, data sizes, references)",
  "The unit tests read and write two hand-made structures; no real group's generated reader/writer is exercised at all.",
  ["src/ringhopper-structs-codegen/src/lib.rs", PR + "tag.rs", PR + "primitive/data.rs", PR + "parse.rs", "src/ringhopper-definitions/json/tag"],
  [("generated readers and writers", "src/ringhopper-structs-codegen/src/lib.rs"), ("tag header and checksum", PR + "tag.rs")],
  ["bytes of TagFile::to_tag_file", "values through DynamicTagData"])

p("P02", "Damaged tag files are rejected without crashing or huge allocations",
  "Reading any damaged tag file (truncated, extended, with bytes, counts, sizes, groups or header fields altered) terminates with a tag or an error, without a panic and without allocating memory out of proportion to the file. Strict reading accepts a file only if its header is intact, of the expected group and version, its checksum matches the contents (or is marked absent) and every byte is accounted for; whatever reading accepts can be written and read again with the same result.",
  ["inputs", "fault_sequences"], "every truncation point, every single-bit flip and every count/size/length replaced by boundary values, of base files of every group; every prefix/suffix combination of an overwrite torn at any byte",
  "Tests parse a few good files; damage at an arbitrary place of an arbitrary group is never tried.",
  [PR + "tag.rs", PR + "primitive/data.rs", PR + "parse.rs", PR + "primitive/array.rs"],
  [("header validation and CRC check", PR + "tag.rs"), ("bounds checks", PR + "parse.rs")], ["result of reading", "largest allocation"])

p("P03", "Tag paths are canonical and can never leave a tags directory",
  "A tag path accepted from any string is in canonical form: lower case, one kind of separator, no empty, dot-terminated or reserved components, no control or forbidden characters; it therefore names a file below the tags directory it is joined to. Parsing is idempotent, equal paths compare, hash and order equal, printing then parsing a path gives the same path and group, and the operations on paths (base name, internal, native and archive form, replacing the group) agree with the textual definition.",
  ["inputs"], "all strings up to a bounded length over an alphabet with every character class the parser distinguishes",
  "Tests try a handful of strings; the accept/reject frontier and idempotence are statements about all strings.",
  [PR + "primitive/path.rs"], [("TagPath::new and friends", PR + "primitive/path.rs")])

p("P04", "Groups, engines and definitions are looked up consistently",
  "Every tag group's name and four-character code identify each other uniquely, every engine's name and every map header identify exactly the engine defined for them, and what the library answers about a group (supported on an engine, which groups it may refer to, whether it has default values) is what the definitions say. Channel counts and sample rates of sounds and the numbers they stand for determine each other.",
  ["inputs", "configurations"], "all groups, all 4-byte codes near a valid one, all names near a valid one, all pairs of group and engine, all header values of all engines",
  "Tests look at a single group and engine.",
  [PR + "primitive/group.rs", PR + "engine.rs", "src/ringhopper-definitions/src/types.rs", "src/ringhopper-definitions/src/types/parse.rs", "src/ringhopper-engines-codegen/src/lib.rs", "src/ringhopper/src/tag/sound.rs"],
  [("group table", PR + "primitive/group.rs"), ("definition loader with inheritance", "src/ringhopper-definitions/src/types/parse.rs")])

p("P05", "Identifiers, indices, strings, data and references survive encoding",
  "Every basic value with a binary form decodes from its encoding, in both byte orders, to an equal value and re-encodes to the same bytes: identifiers with their salt rules, optional indices with their null value, fixed 31-character strings, wide strings, four-character codes, bounds, planes, references and data blocks. Invalid encodings are errors, out-of-range element access yields nothing, and no operation on such a value panics.",
  ["inputs"], "all 2^16 and 2^32-boundary encodings, all strings up to a bounded length over distinguishing alphabets, all element indices around the bounds",
  "Tests cover a few values per type; round trip is a statement about all encodings.",
  [PR + "primitive/data.rs", PR + "primitive/string.rs", PR + "primitive/array.rs", PR + "primitive/plane.rs", PR + "primitive.rs", PR + "parse.rs"],
  [("id, index, string and data codecs", PR + "primitive/data.rs"), ("String32", PR + "primitive/string.rs")])

p("P06", "Compressed vectors, floats and colours keep their precision both ways",
  "Decompressing a compressed normal, vector, float or colour and compressing it again gives back the same bits, for every bit pattern; compressing any value in range yields the nearest representable one (within half a step), never takes the opposite sign, and never panics or wraps. Colour conversions between integer and floating-point forms, gamma and colour spaces invert each other; normalising a vector or a vector-map colour gives the one of the wanted length in the same direction. Sums, differences, products, quotients, scaling, dot products, distances (to points and planes) of vectors, quaternions and angles are those of their components; a colour over another is mixed by its alpha, whatever forms the two have.",
  ["inputs"], "all 2^32 packed vectors, all 2^16 packed floats, all 2^8 colour components and a dense boundary grid of uncompressed values; all operators on all vectors of 8 numbers; all pairs of 81 (256) colours over each other",
  "Tests check a handful of vectors; the round trip is a statement about every bit pattern.",
  [PR + "primitive/vector.rs", PR + "primitive/color.rs"], [("compress/decompress", PR + "primitive/vector.rs"), ("colour conversions", PR + "primitive/color.rs")])

p("P07", "Checksums equal the reference CRC-32 for any data and any split",
  "The tag checksum of any data is the standard reflected CRC-32 register (polynomial EDB88320, initial FFFFFFFF, not inverted at the end), and feeding the data in any number of pieces, of any sizes, gives the same value as feeding it at once.",
  ["inputs", "histories"], "all short byte strings over a distinguishing alphabet, all lengths up to some hundred bytes, all ways to split them into pieces, every single-byte position and value",
  "Tests hash a couple of strings; table or split errors at unusual lengths or bytes go unseen.",
  [PR + "crc32.rs"], [("CRC32", PR + "crc32.rs")])

p("P08", "Field selectors visit exactly the fields they name, once each, in order",
  "Selecting fields of a tag with a field path visits exactly the fields matching it - names, wildcards, index lists, ranges and the end index - once each and in order, for reading as for writing, and leaves everything else alone; a path which is invalid or names nothing is refused and never panics.",
  ["inputs"], "all selectors up to a bounded length from the selector grammar (valid and invalid) x all array sizes 0..n",
  "Tests contain a few selectors on one structure.",
  [PR + "dynamic.rs", PR + "primitive/array.rs"], [("foreach and the range parser", PR + "dynamic.rs")])

p("P09", "Tag filters match exactly like the glob they are written as",
  "A tag filter matches a tag path exactly if its text matches as a glob, where a star stands for any run of characters (also none), a question mark for exactly one character and everything else for itself, the kind of separator not mattering. A filter without a group is matched against the whole path with its group's extension; one with a group matches only tags of that group, and its text, less one trailing extension of that group, is matched against the path. Filters never panic, whatever their text or the path.",
  ["inputs"], "all patterns up to length n over {a, b, ., \\, *, ?, non-ASCII} x all paths up to length m",
  "Tests have a few pairs; glob backtracking errors need particular combinations.",
  [R + "tag/tree.rs"], [("TagFilter", R + "tag/tree.rs")])

p("P10", "A stack of tag directories behaves as one directory with priorities",
  "Opening a tag through a stack of directories gives the contents in the first directory that has it. Writing puts exactly the given contents in the directory which has the tag (or the first one), reports whether it changed anything, and touches no other file; with a copy-on-write directory, changed tags go there and unmodified ones are not saved. Listing shows each tag which is there to be opened exactly once, and nothing else.",
  ["histories", "configurations"], "all states of up to 2 tags in up to 3 directories, with and without copy-on-write, x all operations; all combinations of unusual file and directory names over 2 directories; compared with a reference model",
  "Tests cover one directory and single operations; shadowing and copy-on-write need particular histories.",
  [R + "tag/tree.rs"], [("VirtualTagsDirectory", R + "tag/tree.rs")])

p("P11", "Cached tag trees are coherent with the tree below them",
  "A cached tree hands out one copy of each tag, the one in the tree below when it was first opened or what was last written, until it is written again or evicted: edits to it through a shared handle are seen by everything opened through the cache, edits to a copy by nothing. With immediate caching a write reaches the tree below at once, reporting what that reports and changing nothing if it fails; with manual caching the tree below changes exactly when a tag, or all of them, are committed. No sequence of opens, edits, writes, commits and evictions panics, loses an edit to a cached tag, or invents a tag.",
  ["histories"], "all operation sequences up to a bounded depth over two tags, and all operations in every reachable state of the reference model",
  "Tests open one tag twice; coherence depends on histories mixing writes, commits, evictions and live handles.",
  [R + "tag/tree.rs"], [("CachingTagTree", R + "tag/tree.rs")])

p("P12", "Dependency queries return exactly the reachable tags for every graph",
  "The dependencies of a tag are exactly the tags its references name, the recursive dependencies exactly those reachable from it (including through cycles, and each once), the reverse dependencies exactly the tags which refer to it; broken references are reported as such and every query terminates, also when tags are missing or unreadable. What a map needs is its scenario, the tags its engine requires for that kind of map, and everything reachable from these. The dependency tree shows every tag asked for, under the tags which refer to it, each with its dependencies in order and with broken and circular ones marked.",
  ["inputs", "configurations"], "all directed graphs, with self-references, cycles, missing and unreadable tags, of up to 4 tags; all reference fields of all groups",
  "Tests use one acyclic graph of a few tags.",
  [R + "tag/dependency.rs", I + "verb/dependency_list.rs", I + "verb/dependency_tree.rs"], [("recursive walk", R + "tag/dependency.rs")])

p("P13", "Renaming tags moves what it must and redirects exactly the references to it",
  "Renaming tag paths over a tree moves exactly the tags whose path contains (or starts with) the text to be replaced and which pass the filter, and redirects exactly the references to them, every other byte of every tag staying as it was; replacing the group of references likewise changes exactly those whose field allows the new group and whose target exists (or which have none). Renaming is refused as a whole, changing nothing, when a new path is taken, when two tags would get the same path, when nothing is left of a path, or, without moving, when a target is missing. If moving a tag fails half way, every tag is moved back and an error reported; a tag which afterwards cannot be read or written is named in the output and left as it is while all others are done. No single failing file system operation, crash between two of them, or schedule of the worker threads loses a tag, panics or changes the result.",
  ["histories", "fault_sequences", "schedules", "configurations"], "all small trees x all rename rules; every one and two failing file system operations, every crash point; all interleavings of the worker threads up to a preemption bound",
  "Tests do not touch the command at all; rollback needs a fault at a particular operation.",
  [I + "verb/refactor_paths.rs", I + "verb/refactor_groups.rs", R + "tag/dependency.rs"], [("refactor with rollback", R + "tag/dependency.rs")], ["the files of the tags directory"], "none in the repository: the standard library is shadowed by a dependency named std")

p("P14", "Batch commands do each matching tag exactly once under any schedule",
  "A batch command (strip, nudge, undefault, bludgeon, convert, unicode-strings, tag-collection, recover, plate) processes every tag matching its filter exactly once, whatever the number of worker threads and however they are scheduled: what it writes and where, and what it says about each tag, is what it does for that tag alone, and it writes nothing else (nothing outside the copy-on-write directory, if there is one). It counts successes, failures and skips correctly, names every tag whose own file could not be read or written and does all others, always terminates, and fails only if no tag matched. Bludgeon also repairs tags whose only fault is their checksum.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings, up to a preemption bound, of 1-3 worker threads over up to 3 tags, for every batch command; failing tags at every position",
  "Tests never start the worker threads; a lost or duplicated item needs a particular interleaving.",
  [I + "threading.rs"], [("shared queue and counters", I + "threading.rs")], ["standard output, exit code, files"], "none in the repository: the standard library is shadowed by a dependency named std")

p("P15", "Verifying a scenario gives the same verdict under any schedule",
  "Verifying scenarios always terminates, without deadlock or panic, whatever the tags refer to (child HUDs which form a loop, and references to groups which are not allowed, included), and judges every tag the scenario needs: a tag is reported bad exactly if it breaks a rule itself or depends, where this matters, on a tag which is bad. The messages are the same whatever the interleaving of the verifier's threads and whatever the number of threads and of scenarios verified at once, each scenario's messages coming together.",
  ["schedules"], "all interleavings up to a preemption bound of the verifier's threads over small scenarios including shared and mutually referring tags",
  "No test runs the verifier; lock order and skip-if-busy races need a particular interleaving.",
  [R + "tag/verify.rs", I + "verb/verify_scenario.rs"], [("try-lock work stealing", R + "tag/verify.rs")], ["report on standard output"], "none in the repository: the standard library is shadowed by a dependency named std")

p("P16", "Damaged cache files are rejected without crashing or huge allocations",
  "Loading any damaged or truncated cache file (and resource maps), and extracting any tag from one which loads, terminates with a result or an error: no panic, no endless loop, and no memory out of proportion to the files (16 MiB and 192 times their size; the frames of compressed animations excepted), also if arrays, tags and data overlap. A cache file which is cut off, compressed data which is cut off or does not have the size stated, and (strictly read) one whose checksum is not that of its data are refused. What was not damaged is extracted as before. `invader extract` does not crash on it either.",
  ["inputs", "fault_sequences"], "for a map of every engine family: every truncation; every word of the header and tag array, and all pairs of the latter's, every word and neighbouring pairs of the tag data set to boundary values and to addresses and counts near the real ones; every word of every group's structs; nested and overlapping arrays up to depth 4; damaged bitmaps, resource maps, compressed maps; every covered byte for the checksum",
  "There is no test with a cache file at all.",
  [R + "map/gearbox.rs", R + "map/xbox.rs", R + "map/util.rs", R + "map/resource.rs", R + "map/extract.rs", R + "map/header.rs", R + "map/limit.rs", PR + "map.rs"], [("bounds-checked access to map data", PR + "map.rs"), ("size budget of extraction", R + "map/limit.rs")])

p("P17", "Extracting a tag from a cache file recovers the tag that was built into it",
  "A tag laid out in a cache file the way the engine's tools do is extracted to the tag it was built from, for every group and engine: the same values (byte order converted), references, arrays and data; what the tools change when building (times in ticks, cumulative weights, values patched for the engine, compressed or moved vertices, split cube map faces, swizzled and padded bitmaps, stripped strings, script sources, markers moved to the model, split detail objects, merged sound permutations) is undone. Resources are found inside the map or in resource maps, by index or by path; structure BSPs in address spaces of their own. A bitmap whose description contradicts itself, its engine or the pixel data it has, and a map whose list of tags contradicts itself (a second scenario, IDs of other places, structure BSPs without or with ambiguous data), are refused with an error. The engine, name, type, CRC32 and list of tags of a cache file are told as they are. `invader extract` writes exactly the tags that match, with default values unset, leaves existing ones alone without -o, and globals of a map which is not multiplayer without -n.",
  ["inputs", "configurations"], "all groups x all engines, every field of every struct in turn; all sequences of up to 3-5 values of weights; all formats x types x sizes x mipmaps x engines of bitmaps, with each of 21 faults; each of 14 faults of lists of tags x engines; all small models, materials, detail objects, sounds, animations, markers, scripts, resource maps; the command over filters x options x existing tags",
  "There is no test with a cache file at all.",
  [R + "map/gearbox.rs", R + "map/xbox.rs", R + "map/extract.rs", R + "map/util.rs", R + "map/resource.rs", I + "verb/extract.rs", "src/ringhopper-structs-codegen/src/lib.rs", PR + "primitive/data.rs"], [("map readers", "src/ringhopper-structs-codegen/src/lib.rs"), ("extraction fix-ups", R + "map/extract.rs")])

p("P18", "Bitmap swizzling is a bijection and mipmap layout matches the format",
  "Swizzling and deswizzling are inverse permutations of the pixels, placing each at the bit-interleaved (Morton) address of its coordinates (x lowest; coordinates which have run out of bits are skipped) for every power-of-two size, and refuse other sizes, leaving the output alone; the iteration over the mipmaps of a bitmap visits every level, and every face of it, once, with the dimensions, block counts and offset the pixel format prescribes, and both iterations agree on the total. The source image kept compressed in a bitmap comes back pixel by pixel; if it is damaged or of another size than stated this is an error, and memory use stays proportional to the data there is.",
  ["inputs"], "all power-of-two sizes up to 2^18 (2^22) pixels and cubes up to 64^3 (128^3) x 3 pixel types; 784 (6561) sizes x 2D, cube map, 3D of 12+ depths x block lengths x 16 mipmap counts; all formats x types x boundary dimensions; source images with every truncation, changed bytes and wrong sizes",
  "Tests check few sizes; non-square, depth and odd sizes and block formats differ.",
  [R + "tag/bitmap/swizzle.rs", R + "tag/bitmap.rs"], [("swizzle", R + "tag/bitmap/swizzle.rs"), ("MipmapFaceIterator, MipmapTextureIterator", R + "tag/bitmap.rs"), ("extract_compressed_color_plate_data", R + "tag/bitmap.rs")])

p("P19", "Loose images become a colour plate from which exactly they can be cut again",
  "A directory of loose images (s<sequence>_<bitmap>, ending at the first missing one; a missing first sequence is an error) becomes a colour plate with the key (background, divider, padding if given) in its first row, a full row of the divider before every sequence, and every image in its place, in order, pixel by pixel, apart from the others and the edges by background. The key colours are the usual ones unless they are taken, and never a colour of an image, of the padding or of each other, whatever the alpha. The padding colour is read from #RGB or #RRGGBB and anything else refused. PNG, TIFF and JPEG XL images of 8 bits in grey or RGB, with and without alpha, are read exactly; a TIFF which was written is read back the same; other, damaged and lying images are refused or read as something consistent, without a crash or excessive memory.",
  ["inputs"], "all layouts of up to two sequences of up to three images of 3 (4) sizes, all shapes of up to 5 (6) sequences; all 2^8 sets of colours around the keys x 10 paddings x alphas; all 2^6 sets of file names, extensions; all padding texts of up to 4 (5) tokens and behind 7 beginnings; all PNG types x depths x filters, TIFF orders x channels x depths x strips x planes, JPEG XL channels over 17 (50) images incl. all sample values; every truncation, six changes of every byte, 169 declared sizes; the plate command",
  "Tests build no plates and read no images. A colour that collides with a key, a planar TIFF or a lying header shows only for particular inputs.",
  [R + "data/bitmap/plate.rs", R + "data/bitmap/parse.rs", R + "data/bitmap.rs", I + "verb/plate.rs"], [("make_color_plate_from_loose", R + "data/bitmap/plate.rs"), ("image readers", R + "data/bitmap/parse.rs"), ("plate command", I + "verb/plate.rs")])

p("P20", "Model and BSP vertex recompression restores what is missing and only that",
  "Restoring missing compressed or uncompressed vertices of a model or structure BSP produces the counterpart of each existing vertex (each number as the compression defines it), in order and nothing else, tells exactly whether something changed, and does nothing a second time; recompressing makes all compressed vertices from uncompressed ones, or drops them where they cannot be made (more than 42 nodes, or local nodes). Vertices which the compressed form cannot hold are left alone; sizes of BSP vertices which do not match the counts are an error. The check of a model's indices (nodes, geometries, shaders, local nodes) passes exactly if each names something which exists, and a model which passes is converted between model and gbxmodel without its vertices changing (local nodes become global ones), one which does not is refused. None of this panics.",
  ["inputs"], "models of up to two geometries with up to three parts x 5 kinds of vertices each x numbers of nodes x model/gbxmodel/local nodes x all pairs of operations; 24 (all byte) node indices squared; 13 values squared in each field; pairs of 21 index places x 10 (21) values squared; BSP materials: all pairs of counts x sizes, values; the command with every combination",
  "No test builds a model.",
  [R + "tag/model.rs", R + "tag/scenario_structure_bsp.rs", R + "tag/convert.rs", I + "verb/recompress_vertices.rs"], [("compress/decompress vertices", R + "tag/model.rs"), ("check_indices", R + "tag/model.rs")])

p("P21", "Compiled scripts are decompiled faithfully",
  "Decompiling the script data of a scenario yields source text which, read back, has the structure of the compiled node graph - every script (type, return type, name), global, call, literal and reference once and in order, values as the literals of their type, anything which needs quotes in quotes - for every valid node graph; scripts of which the source is there are left alone. Any malformed node graph (indices out of bounds, cycles, nodes used by several, string offsets outside, cut data) is an error or a text, without a panic, and in time and memory in proportion to the data.",
  ["inputs"], "all bodies of up to 3 (4) nodes; all value types x boundary values; all strings over the characters which need quoting; all headers; all graphs of 3 (4) nodes with each link and kind at boundary values; every byte of a block x 256; every truncation; 8 kinds of large graphs x sizes up to 65535 nodes",
  "No test decompiles anything.",
  [R + "tag/scenario.rs"], [("decompile_scripts", R + "tag/scenario.rs")])

p("P22", "Text, scripts and colour plates come out of tags as they went in",
  "A string list built from text holds exactly the strings of the text (UTF-8, or UTF-16 of either byte order with a mark; lines ended by LF or CRLF; each string ended by its end line; line ends become CRLF, control characters other than tabs go), and text that is anything else is refused without a crash. Recovering the text of a list and building a tag from it gives the same list and the same text again, trailing empty lines included; a list which has no text form (damaged strings, a line which would end the string) is refused instead of changed. Collections hold exactly the paths listed, or name the bad line. Every script and the colour plate of a bitmap are recovered unaltered, pixel by pixel, or refused if damaged. Recovering writes only below the data directory (scripts only in their directory), and never over an existing file unless told to, even one which another tag's recovery has just written.",
  ["inputs", "schedules"], "all texts of up to 5 (7) tokens over all character classes x 3 encodings; all lists of up to two strings; all byte strings of up to 6 (8) bytes as stored strings and as files; all collections of up to 4 (6) lines; all script names of up to 5 (7) characters over separators and dots; all lists of scripts; colour plates of every small size, cut, resized; the commands with every subset of files in the way, and two recoveries at once under every schedule up to 1 (3) preemptions",
  "Tests round-trip one list. Empty lines, encodings, names which lead elsewhere and files written by two threads at once show only for particular inputs or schedules.",
  [R + "tag/unicode_string_list.rs", R + "tag/tag_collection.rs", R + "tag/recover.rs", I + "verb/recover.rs", I + "verb/unicode_strings.rs", I + "verb/tag_collection.rs", R + "data/bitmap/parse.rs"], [("text import/export", R + "tag/unicode_string_list.rs"), ("recover", R + "tag/recover.rs"), ("recover command", I + "verb/recover.rs")])

p("P23", "Nudging numbers only removes single-precision rounding noise",
  "Nudging a tag rounds the numbers it is meant for (velocities, frictions, durations, weights) to six significant decimal digits (by the digits of the shortest decimal form, halves away from zero): every number of up to six digits that a person typed comes back exactly from the stored 32-bit float, nudging twice changes nothing more, and zero, sign, infinities and not-a-number are kept. All other fields are left alone, object permutation weights become 1 only if they are all the same equal share, and whether the tag changed is reported truthfully.",
  ["inputs"], "all decimals of six digits over 19 exponents (every 17th in quick) x neighbouring floats, all float bit patterns in a range per exponent, carries at every digit, special values, every group x every nudged and every other field, weight lists up to six permutations, the nudge command",
  "Tests try a few numbers; carries and exponents break only particular ones.",
  [R + "tag/nudge.rs"], [("fix_decimal_rounding", R + "tag/nudge.rs"), ("nudge_tag", R + "tag/nudge.rs")])

p("P24", "Comparing tags reports a difference exactly where there is one",
  "Comparing two tags reports no difference exactly if they are equal, and otherwise names exactly the fields which differ, the same ones whichever tag comes first; comparison of a tag with itself, including not-a-number and empty values, is always empty.",
  ["inputs"], "all groups x all single-field changes x all pairs of small array shapes",
  "Tests compare nothing.",
  [R + "tag/compare.rs", I + "verb/compare.rs"], [("compare_tags", R + "tag/compare.rs")])

p("P25", "Default values are stripped and restored exactly",
  "Filling in defaults sets exactly the fields which are unset and have a default, to that default, and nothing else; stripping clears exactly the fields equal to their default. Both are idempotent, strip after fill gives the stripped tag and fill after strip the filled one, for every group.",
  ["inputs"], "all groups x every field with a default x {unset, default, other} singly and in pairs",
  "No test calls either.",
  [R + "tag/default.rs", R + "tag/default", PR + "tag.rs"], [("set_defaults/unset_defaults", R + "tag/default.rs")])

p("P26", "Repairing a tag removes exactly the faults it claims, and only once",
  "Repairing a tag changes it exactly if it has a fault of a kind which can be repaired - numbers which are not a number, colours out of range, runtime markers, missing kinds of vertices, vectors which are not normalized, permutation counts, formats and buffer sizes of sounds, text with bad characters or line ends, BSP normals, scripts without source - and changes exactly what is involved in the fault, to the value the fault's kind calls for; everything else stays as it is. A second repair, also of the saved tag, changes nothing. A tag is called beyond repair exactly if it has a fault which cannot be repaired, and the verifier reports such a tag; the verifier reports fewer errors after a repair exactly if something it complains about was repaired, and no error it calls repairable remains for sounds, models and strings. The command writes exactly the tags which change. Repairing never panics.",
  ["inputs"], "all groups x every number x 11+ bad values; all combinations of up to 2 markers x 4 indices; rotations^3; all chains of 3 (6) permutations; pairs of sound formats; all strings of 4 (6) of 10 code units; normals^3; vertex counts x data sizes",
  "Tests repair nothing.",
  [R + "tag/bludgeon.rs", R + "tag/bludgeon", R + "tag/verify.rs"], [("bludgeon passes", R + "tag/bludgeon.rs")])

p("P27", "Archiving collects exactly the tags needed",
  "An archive of a tag contains exactly that tag and everything reachable from it, an archive of a scenario also what the engine requires for a scenario of its type and everything reachable from that; each once, under its own path, tags of a group together, and each comes out of the archive byte by byte as the (highest) tags directory has it, whatever its size, contents and the compression level. If anything needed is missing or unreadable this is an error, and no archive is written. An existing file is only replaced if asked for.",
  ["inputs", "configurations"], "all dependency graphs of 3 (4) tags which are there, without references, missing or unreadable; every group x level; data of 7 (22) sizes around block boundaries x 6 patterns x 3 (10) levels; 1 to 300 (3000) tags at once; every engine x scenario type x each tag missing; the commands on all graphs of 3 x file there x -o x -O, and every engine",
  "No test archives anything.",
  [R + "tag/archive.rs", R + "tag/dependency.rs", I + "verb/archive.rs"], [("archive writer", R + "tag/archive.rs"), ("archive_command", I + "verb/archive.rs")])

p("P28", "Command lines are parsed the same in all equivalent spellings",
  "Every command accepts exactly the options it declares (its help lists them), with their arities, in any order relative to the other arguments; long options, short options and short options combined into one (their values following in order) mean the same: same output, exit code and files. What follows an option which takes a value is its value; defaults apply where nothing is given; several tags directories are only taken where declared, in order of precedence. Unknown options (a lone dash included), repeated ones, missing or surplus arguments, invalid numbers, engines which cannot be built for, directories which do not exist (or tags directories which are not directories) are refused with an error, before anything is written. No argument makes the program panic or exhaust memory, whatever the number of jobs and whether or not it is text. Command names are not case sensitive.",
  ["inputs"], "all argument lists up to 2 (3) of 20-40 tokens per command, 3 (4) for some; every subset of up to 2 (3) options x all orders x all spellings; boundary numbers, all engines and kinds of paths for every option of all 22 commands",
  "Tests parse a handful of command lines.",
  [I + "cli.rs", I + "main.rs", I + "verb.rs", I + "threading.rs"], [("CommandLineParser", I + "cli.rs"), ("do_with_threads", I + "threading.rs")], ["command line, standard output, exit code, files"])

p("P29", "Converting a tag keeps what both groups have in common",
  "Tags can be converted between model and gbxmodel, from anything which is an object into scenery, and from anything which is an item into garbage, weapon or equipment, and no others. The converted tag has exactly the values (object or item) which both groups share, and defaults for the rest. The command converts every tag which matches and can be converted, reports the others as failed, leaves its sources alone, and never writes over a tag which exists - even one which another thread has just written - unless told to.",
  ["inputs", "schedules"], "all pairs of groups; tags of every convertible pair with all numbers of elements up to 2 (4), every value of every field on its own; the command for all groups of targets x filters x 24 (256) sets of tags there x options; two tags becoming one at once under every schedule up to 1 (3) preemptions",
  "No test converts anything.",
  [R + "tag/convert.rs", R + "tag/object.rs", I + "verb/convert.rs"], [("get_tag_conversion_fn", R + "tag/convert.rs"), ("convert", I + "verb/convert.rs")])

p("P30", "Each rule of the verifier reports exactly what breaks it",
  "For every tag a scenario needs, the verifier says exactly what its rules call for: an error for every reference to a group which is not allowed there or which the engine does not have (with the path of the field), number which is not one, colour out of range, index out of bounds (texts, sequences of bitmaps, permutations of sounds, detail objects), bitmap whose format, sequences or pixels do not fit, mismatch of model and animations, sound which cannot be played (and whether it can be repaired), list in the globals too short for the type of scenario, grenades beyond what the network code takes, null damage effect, scripts without source, loop of child HUDs, tag depended on which has errors; and a warning for what is merely suspicious. Each fault is reported once, naming its place; a tag without faults gets no message.",
  ["inputs"], "each rule on all combinations of what it looks at: 12 kinds of object x models x lists of checksums; all places of HUD interfaces x sequences x indices, and pairs of places; all graphs of 3 child HUDs; zooming weapons; all sequences of up to 3 (4) permutations x links; formats x encodings x usages; pixel data sizes one off; 6,912 detail object cells; every number of every group with 5 values; every reference of every group to 8 (all 77) groups on 2 (5) engines",
  "No test verifies anything: the verifier has no tests at all.",
  [R + "tag/verify.rs", R + "tag/verify"], [("verify", R + "tag/verify.rs"), ("verify_bitmap_sequence_index", R + "tag/verify/bitmap.rs"), ("check_errors_with_sound", R + "tag/verify/sound.rs")])

p("P31", "What is said about cache files and engines is true",
  "For every cache file of every engine, `info` says what is in it: the name and build string of its header, the engine it is for, the type of its scenario, the number of its tags, its size when decompressed and the tag space its tags and largest BSP take (each next to the engine's limit for this type of scenario), the tag space it was built for (and whether that is above or below the limit, or cannot be determined), and for engines whose checksum is known the checksum of its contents, as text if all four characters can be printed, and whether it is what the header says. A file which is not a cache file, or a question which is not known, is refused. `list-engines` lists each engine once under the right heading, and for each engine shows the values of its definition; no other name is accepted as one.",
  ["inputs"], "all engines x types of scenario x 5 sets of BSPs; tag space at 9 distances from each engine's limit; 15 checksums (forced) x 5 header values x engines, and each bit of a checksum; names x numbers of tags up to 300; 11 kinds of refusal x engines; all engines and 134 names which are not engines; thorough: all of these together",
  "No test runs `info` or `list-engines`, or opens a cache file.",
  ["src/invader/src/verb/info.rs", "src/invader/src/verb/list_engines.rs", R + "map/gearbox.rs", R + "map/xbox.rs"], [("general_info", "src/invader/src/verb/info.rs"), ("print_info_for_engine", "src/invader/src/verb/list_engines.rs"), ("GearboxCacheFile::new", R + "map/gearbox.rs")])

p("P32", "A tag's fields can be reached by name, and are what the definitions say",
  "The interface which gives access to tags without knowing their types has every field of every block of every tag group under the name it is defined with, in the order of the definitions, and no others: by reading and by changing it is the same field, no two fields are in one place, and it is of the defined kind and length. What is said about a field (comment, read only, only in cache files, only in tags, which groups it can refer to) is what the definitions say, and the name of a field can be found from the field. Setting data, a reference or an enum through it changes just that in the tag's file; an enum takes exactly its own names, and keeps its value when another is refused. Elements put into a list - made, copied or moved, at any place - are there with the others as they were before and after them; behind the end, or with something which is not an element, nothing is put in. A copy of a tag is equal and independent.",
  ["inputs", "histories"], "all blocks and fields of all 82 groups; every block x all 1500 names of all definitions and misspelt ones; every enum x every value x all names of all enums; every structure in a list (every list) x all histories of 3 (4) insertions of 3 kinds at all places; every data and reference x 3 values",
  "Tests use the interface on one made-up structure.",
  [PR + "dynamic.rs", PR + "primitive/data.rs", PR + "primitive/array.rs", "src/ringhopper-structs-codegen/src/lib.rs"], [("DynamicTagData, DynamicReflexive, DynamicEnum", PR + "dynamic.rs"), ("to_token_stream", "src/ringhopper-structs-codegen/src/lib.rs")])

p("P33", "Definitions are loaded as the definition files say",
  "For everything the definition files define - every structure, enum, set of flags, tag group and engine - the definitions library has exactly that, whatever order files, groups and engines are gone through in: fields with the names, types, counts, offsets, sizes, defaults, ranges, limits (by default, of each engine, and the highest for editors), flags of their own or of their structure and texts which are written there; structures begin with what they inherit and are as long as their fields; references take the groups named and all that derive from them, each once; enum values and flags are numbered in order; an engine has what it does not say itself from the engine it derives from, and requires the tags which any of its ancestors require, each once. Nothing else is defined.",
  ["inputs", "configurations"], "all 887 definitions of all 106 files, field by field, in 8 (64) loads with different iteration orders",
  "The only test loads the definitions and looks at nothing.",
  ["src/ringhopper-definitions/src/lib.rs", "src/ringhopper-definitions/src/types.rs", "src/ringhopper-definitions/src/types/parse.rs"], [("load_all_definitions", "src/ringhopper-definitions/src/lib.rs"), ("LoadFromSerdeJSON", "src/ringhopper-definitions/src/types/parse.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
import sys
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
