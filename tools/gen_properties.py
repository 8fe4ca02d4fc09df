#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the entries stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "DeviceSQL strings: text survives construct, write, read and decode",
  "Every text accepted when building a DeviceSQL string is returned unchanged when the string is turned back into text, both directly and after it has been written out and read back. Reading back what was written yields an equal string and consumes exactly the bytes that were written. The same holds for valid ISRC strings.",
  ["inputs"], "all texts (ASCII and non-ASCII, every length class) that construction accepts",
  "The tests encode a handful of literal strings; the choice of encoding and the ISRC special case depend on every byte and on the length.",
  ["src/pdb/string.rs"], [("DeviceSQLString::new / into_string", "src/pdb/string.rs"), ("LongBody ISRC/UCS-2 discrimination", "src/pdb/string.rs")],
  ["DeviceSQLString::new, read, write, into_string"])
p("C02", "DeviceSQL strings: encoding choice, length fields and over-long rejection",
  "Building a string from text picks the compact one-byte-header form for ASCII of at most 126 bytes, the long ASCII form for longer ASCII, and little-endian UTF-16 for anything else, and the header and length fields of the written form describe exactly the bytes written. A text too long for the format's length field is rejected with an error and never truncated, wrapped or panicked on. An ISRC is accepted exactly when it is empty or 12 ASCII characters.",
  ["inputs"], "all texts up to and across the short/long/too-long boundaries",
  "Boundary lengths (126/127 bytes, the 16-bit length limit) combined with content are only sampled at a few literals.",
  ["src/pdb/string.rs"], [("DeviceSQLString::new, new_isrc", "src/pdb/string.rs"), ("ShortASCII / Long bw attributes", "src/pdb/string.rs")],
  ["DeviceSQLString::new, new_isrc, write"])
p("C03", "DeviceSQL strings: arbitrary bytes decode losslessly or fail cleanly",
  "Decoding arbitrary bytes as a DeviceSQL string never panics: it returns an error or a string. When it returns a string, writing that string reproduces exactly the bytes that were consumed, and turning it into text, formatting it or printing it for debugging does not panic either.",
  ["inputs"], "all byte sequences up to the stated length",
  "Tests decode only well-formed strings taken from real exports; header and length bytes of a damaged file take every value.",
  ["src/pdb/string.rs"], [("LongBody/ShortASCII br attributes", "src/pdb/string.rs")],
  ["DeviceSQLString::read, write, Debug, Display, into_string"])
p("C04", "Offset arrays: items are stored where the offsets say, in either width",
  "An array of offsets written with computed offsets stores every item contiguously after the offset table, records each item's distance from the row start in the chosen 8- or 16-bit width, and can be read back to equal items. Offsets read from a file are kept and reproduced when writing, so reading and writing again places items at the same positions. A position that does not fit the chosen width is an error, not a silently wrapped offset.",
  ["inputs"], "all item contents, base offsets, both offset widths, computed and provided offsets",
  "The tests use a few literal arrays; the guarantee concerns every combination of base, width, offsets and item sizes.",
  ["src/pdb/offset_array.rs"], [("OffsetArrayContainer read/write", "src/pdb/offset_array.rs")],
  ["OffsetArrayContainer, rows using it"])
p("C05", "Plain database rows: reading back a written row gives an equal row",
  "For every row type of the main database (albums, artists, artwork, colors, genres, history, keys, labels, playlists, columns, menus, tracks), a row read from bytes and written again reproduces those bytes up to its end, and reading the written bytes gives an equal row, for every value of every field. Each field sits at its documented offset and no field is dropped, swapped or narrowed.",
  ["inputs"], "all field values of every plain row type; string contents bounded",
  "The round-trip tests use rows of a few real exports, in which most fields hold the same small values.",
  ["src/pdb/mod.rs", "src/pdb/string.rs", "src/pdb/offset_array.rs"], [("row structs and their binrw attributes", "src/pdb/mod.rs")],
  ["Row read/write"])
p("C06", "Extended database rows: tags and track tags round-trip",
  "For every row type of the extended database (tags, tag categories and track-tag links), a row read from bytes and written again reproduces those bytes, and reading the written bytes gives an equal row, for every value of every field. Rows whose fixed marker fields differ are rejected.",
  ["inputs"], "all field values of every extended row type; string contents bounded",
  "Only rows of one real exportExt.pdb are tested.",
  ["src/pdb/ext.rs"], [("TagOrCategory, TrackTag", "src/pdb/ext.rs")], ["ext rows read/write"])
p("C07", "Row size accounting equals the bytes the row occupies",
  "The heap size the library computes for a row before placing it in a page is never smaller than the number of bytes the row's serialization occupies, for every row type, and equals it for rows without alignment padding. This covers every row that fits a page at all (at most 65535 bytes) and whose strings are packed behind the offset table, whether their offsets are computed or were read. The size computed for a string or offset array likewise equals what writing it emits.",
  ["inputs"], "all rows and strings within the content bounds",
  "Tests check sizes of a few rows; an under-count for a rare field combination makes rows overlap in the page.",
  ["src/pdb/mod.rs", "src/pdb/string.rs", "src/pdb/offset_array.rs"], [("PageHeapObject::heap_bytes_required", "src/pdb/mod.rs")],
  ["row insertion"], hook="pub wrapper for the crate-private size computation")
p("C08", "Row presence: exactly the rows flagged present are exposed",
  "Reading a data page exposes exactly the rows whose presence bit is set in the row groups at the end of the page, each read from the heap offset stored for it, and never a row whose bit is clear. The row groups are taken from the page end backwards, 16 rows per group, as many as the page's row count requires. A page whose presence bits and stored count of valid rows disagree is rejected.",
  ["inputs"], "all presence-bit patterns, row offsets and row counts within the bounds",
  "Real pages have long runs of set bits; tests contain few deleted rows and no inconsistent counts.",
  ["src/pdb/mod.rs"], [("RowGroup, DataPageContent reading", "src/pdb/mod.rs")], ["DataPageContent rows and row_groups"])
p("C09", "Pages: reading and rewriting a page preserves everything in it",
  "Reading a page and writing it back, then reading again, gives an equal page: header fields, flags, packed row counts, row contents, row offsets, row groups and presence bits are preserved. The written image is exactly one page long, keeps every row at the heap offset it was read from and the row groups at the page end.",
  ["inputs"], "all header field values; bounded number of rows with arbitrary contents and positions",
  "Only pages of real exports are round-tripped; header counters and offsets in those are highly correlated.",
  ["src/pdb/mod.rs", "src/pdb/bitfields.rs"], [("Page, PageHeader, DataPageContent, RowGroup", "src/pdb/mod.rs")], ["Page read/write"])
p("C10", "Row insertion never overlaps, overflows or loses rows",
  "Inserting a row into a well-formed data page (header sizes and counts describe its content, a used size that is a multiple of four) either reports that there is no room, leaving the page unchanged, or places the row at an aligned heap position that overlaps no existing row and no row-group entry. After a successful insertion the row counts, presence bits and free/used sizes describe the new content, and the page written out and read back contains all old rows and the new one. This holds for any sequence of insertions until the page is full; running out of space is never a panic.",
  ["inputs", "histories"], "all consistent page states (counts, free/used sizes) and row sizes; one insertion from an arbitrary consistent state plus bounded insertion sequences",
  "Tests insert a few fixed rows in one page; group boundaries (16 rows) and nearly-full pages are not reached.",
  ["src/pdb/mod.rs"], [("Page::allocate_row", "src/pdb/mod.rs")], ["Page::allocate_row then write/read"])
p("C11", "Index pages: entries keep page number and flags; empty slots stay empty",
  "An index entry keeps its page number and its three flag bits independent of each other through packing, unpacking, reading and writing, for every valid page number, and an empty entry is recognised as such. A well-formed index page written and read back has the same header, entries and padding, and fills exactly one page. An index page claiming more entries than fit is rejected rather than read past its end.",
  ["inputs"], "all page numbers x flags; all index headers; bounded entry counts",
  "One index-page fixture is tested.", ["src/pdb/mod.rs"], [("IndexEntry, IndexPageHeader, IndexPageContent", "src/pdb/mod.rs")], ["index entries, index page read/write"])
p("C12", "Table iteration visits the page chain once, in order, and always ends",
  "Iterating a table's pages yields the pages reached by following the next-page links from the table's first page through its last page, each exactly once and in chain order, and then stops. A chain that loops, runs backwards or leaves the file produces an error and ends the iteration; it never loops forever and never panics. Iterating rows yields exactly the present rows of these pages' data pages.",
  ["inputs", "histories"], "all next-page links, first/last pages and file sizes within a bounded number of pages",
  "Real files have well-formed chains only.", ["src/pdb/io.rs"], [("PageIterator, Database::iter_pages_for_table, iter_rows", "src/pdb/io.rs")], ["Database iterators"])
p("C13", "Opening, flushing and closing: untouched bytes stay, edits persist in place",
  "A page is loaded from its page number times the page size. Flushing or closing writes back the pages that were handed out for modification at that same position, and leaves every other byte of the file unchanged; with no edits the file's content is unchanged (as long as its index pages are well-formed: unused slots empty). An edit made through the database is there when the file is opened again.",
  ["inputs", "histories"], "all page numbers and contents of a bounded file, sequences of load/modify/flush/close",
  "Tests modify one known page of one file.", ["src/pdb/io.rs"], [("Database::load_page, flush, close, LazyPage", "src/pdb/io.rs")], ["Database over an in-memory file"])
p("C14", "Database header: fields round-trip and tables are found by type",
  "Reading and writing the database header preserves the page size, sequence number, next-unused page and every table's type, candidate, first and last page, for all values; non-zero marker fields are rejected. Page types unknown to the library keep their number. Looking up a table returns the first table of that page type or reports that none exists.",
  ["inputs"], "all field values; table counts up to the stated bound",
  "Tests contain two literal headers.", ["src/pdb/mod.rs", "src/pdb/io.rs"], [("Header, Table, PageType", "src/pdb/mod.rs")], ["Header read/write, Database table lookup"])
p("C15", "Packed row counts and page flags keep every bit",
  "The packed row counters of a page keep the 13-bit row count and the 11-bit valid-row count independent of each other and in their documented bit positions, and page flags keep all eight bits, through every read, write and accessor. Setting one counter or flag never changes another.",
  ["inputs"], "all 2^24 counter values, all 2^8 flags, both byte orders where applicable",
  "Tests check a few literals.", ["src/pdb/bitfields.rs"], [("PackedRowCounts, PageFlags", "src/pdb/bitfields.rs")], ["bitfield accessors and (de)serialization"])
p("C16", "Analysis files: every section kind round-trips",
  "For every section kind of an analysis file (beat grid, cue lists, path, VBR, all waveform kinds, song structure, unknown sections), reading a section and writing it back reproduces its bytes, and reading the written bytes gives an equal section, for every value of every field. Bit-packed waveform columns keep all their bits.",
  ["inputs"], "all field values; bounded entry counts and payload lengths",
  "Tests round-trip real files, in which many fields are constant.", ["src/anlz.rs"], [("Section, Content and section structs", "src/anlz.rs")], ["anlz::Section / ANLZ read, write"])
p("C17", "Analysis files: section framing follows the declared sizes",
  "Reading an analysis file consumes sections back to back, each occupying exactly the total size its header declares, and sections of an unknown kind are kept byte for byte. A section whose declared sizes contradict each other or its contents is rejected with an error; it is never read with content taken from a neighbouring section. The file header's own sizes are preserved.",
  ["inputs"], "all header kinds and sizes, bounded payload lengths",
  "Real files are consistently framed.", ["src/anlz.rs"], [("Header, Content import, Unknown", "src/anlz.rs")], ["ANLZ::read"])
p("C18", "Song structure: encryption is detected correctly and is an involution",
  "A song structure section written with the key-mask obfuscation and read back yields the same phrases, for every entry count, and so does one written in plain form; the form found on reading is kept on writing. Plain data with a valid mood is never taken for encrypted data and encrypted data never for plain. The mask is the documented 19-byte key offset by the entry count, applied per byte with wrap-around.",
  ["inputs"], "all entry counts 0..65535 for mask and detection; bounded phrase lists for contents",
  "Detection depends on the entry count and the encrypted bytes; the fixtures contain a handful of counts.", ["src/anlz.rs", "src/xor.rs"], [("SongStructure check_if_encrypted, get_key", "src/anlz.rs"), ("XorStream", "src/xor.rs")], ["SongStructure read/write"])
p("C19", "Analysis files: length-prefixed text fields keep their text and length",
  "Paths and cue comments are stored as big-endian UTF-16 with a byte-length prefix that includes the terminator, and round-trip for every text that was not stored as a lone terminator; a declared length is consumed exactly. Trailing data of an extended cue after its comment is preserved. A length prefix that is odd or exceeds its section is an error.",
  ["inputs"], "all texts up to the stated length, all length prefixes", "Fixtures contain a few ASCII paths and comments.",
  ["src/anlz.rs"], [("LenPrefixedWideString, ExtendedCue, Path", "src/anlz.rs")], ["anlz sections read/write"])
p("C20", "Malformed analysis files never panic the reader",
  "Reading any bytes as an analysis file returns a value or an error: no panic, no arithmetic overflow, no out-of-range access and no endless loop, whatever the size, count and length fields say. What could be read can be written without panic.",
  ["inputs"], "all byte contents of bounded size for each section kind",
  "Only well-formed files are tested.", ["src/anlz.rs"], [("all br attributes and size arithmetic", "src/anlz.rs")], ["ANLZ::read on arbitrary bytes"])
p("C21", "Malformed databases never panic the reader",
  "Reading any bytes as a database header, page, row group or row returns a value or an error: no panic, no arithmetic overflow, no out-of-range access and no endless loop, whatever the counters, offsets, sizes and lengths say. The same holds for opening a damaged file and iterating its pages and rows.",
  ["inputs"], "all byte contents of bounded size for each structure",
  "Only well-formed exports are tested.", ["src/pdb/mod.rs", "src/pdb/io.rs", "src/pdb/ext.rs"], [("br attributes, size arithmetic", "src/pdb/mod.rs")], ["Header, Page, Row reads, Database::open"])
p("C22", "Setting files: every valid setting round-trips at its documented position",
  "For each of the four setting file kinds, any combination of valid option values written and read back yields the same settings, and every option occupies its documented byte. Brand, software and version texts survive the round trip. The file has its documented size and length fields.",
  ["inputs"], "all combinations of all option values", "Tests read the default and a few changed fixture files.",
  ["src/setting.rs"], [("Setting, SettingData and option enums", "src/setting.rs")], ["Setting read/write"])
p("C23", "Setting files: the checksum is recomputed on writing and covers the data",
  "A written setting file carries the CRC-16 (XMODEM) of the documented byte range at the documented position: of the option data for most kinds, and of everything before the checksum for the DJM mixer kind. This holds for every combination of options, also for a setting that was read with a different checksum or edited after reading.",
  ["inputs"], "all option values and stored checksums", "Tests compare the checksums of a few fixture files.",
  ["src/setting.rs"], [("Setting::calculate_checksum", "src/setting.rs")], ["Setting write"])
p("C24", "Setting files: invalid options, lengths and markers are errors, never panics",
  "Reading arbitrary bytes as a setting file of any kind returns a value or an error without panicking; an option byte that is not one of the documented values, a wrong data length or a wrong marker is an error and is never mapped to some other option. Writing any setting the API can construct does not panic.",
  ["inputs"], "all bytes of bounded-size files of each kind", "Only valid files are tested.",
  ["src/setting.rs"], [("Setting br attributes", "src/setting.rs")], ["Setting::read on arbitrary bytes"])
p("C25", "Playlist tree: folders and playlists are rebuilt faithfully",
  "The playlist tree built from a device's playlist rows contains every playlist and folder reachable from the root exactly once, under the parent its row names, with its name and id, folders as folders and playlists as playlists, siblings in the order of their rows. Rows that form a cycle or refer to a missing parent do not hang or crash the library.",
  ["inputs"], "all parent/id/sort/kind values of a bounded number of rows", "One fixture with a simple tree is tested.",
  ["src/device.rs"], [("DeviceExportLoader::get_playlists", "src/device.rs")], ["get_playlists over an in-memory database"])
p("C26", "Device settings: each file's options reach the matching field",
  "Loading a device's settings takes each option from the setting file that holds it and reports it in the field of that name; options of a file that is missing or cannot be read are reported as absent, with a warning, without affecting the others. The listing shows each option behind its label with its documented text. Setting files are recognised by their documented names only.",
  ["inputs", "configurations", "fault_sequences"], "all option values of each file, all subsets of files present, a failure of the file system at any operation", "One fixture directory is tested.",
  ["src/device.rs", "src/setting.rs"], [("Settings and load_settings", "src/device.rs"), ("SettingType::from_filename", "src/setting.rs")], ["DeviceExportLoader::load_settings"])
p("C27", "Collection XML: a document survives serialization and parsing",
  "A collection document serialized to XML and parsed again gives an equal document: tracks with all attributes, folders and playlists with their nesting, order, counts and track keys, including texts that contain XML special characters. Empty folders, playlists and collections are included.",
  ["inputs"], "all attribute values within bounds, bounded trees", "Two literal documents are tested.",
  ["src/xml.rs"], [("serde attributes and custom (de)serializers", "src/xml.rs")], ["quick_xml to_string/from_str"])
p("C28", "Exporting playlists writes only inside the chosen output directory",
  "Exporting a device's playlists creates files and directories only beneath the output directory the user named, whatever the playlist and folder names stored on the device are. Names with separators, parent references or absolute paths do not escape it.",
  ["inputs"], "all playlist and folder names of bounded length", "There is no test of the export command.",
  ["src/main.rs"], [("export_playlists", "src/main.rs")], ["paths handed to the file system"])
p("C31", "Exported playlists list their tracks, in order, under their own names",
  "Exporting a device's playlists writes one file per playlist, named after it and placed in directories named after its folders. The file holds one line for each of the playlist's entries whose track exists, in the order of the entries' indices: the track's path below the device directory. Entries of other playlists do not appear. An export during which the file system fails reports an error, or has written everything.",
  ["inputs", "fault_sequences"], "all entry indices, track and playlist assignments, names and paths within the bounds", "There is no test of the export command.",
  ["src/main.rs"], [("export_playlists", "src/main.rs")], ["files written"])
p("C29", "XOR streams mask every byte with the right key byte",
  "Data passing through the masking stream is XORed byte for byte with the cyclic key at the byte's position in the stream, for reads and writes of any sizes, including partial ones, so that reading what was written gives the original data. Bytes of a caller's buffer beyond what was actually read are not touched and do not advance the key.",
  ["inputs", "fault_sequences"], "all data, keys, splits into reads/writes and short reads/writes within the bounds",
  "The tests use full reads and writes of a literal buffer.", ["src/xor.rs"], [("XorStream Read/Write/Seek", "src/xor.rs")], ["XorStream over a stub stream"], hook="the module is crate-private; exposed under the verification cfg")
p("C30", "Page numbers, file types and colors: conversions are exact and total",
  "Converting a number to a page number accepts exactly the numbers the format can store and converts back to the same number; page and file offsets are computed without overflow. Every file-type, page-type and track-number code, known or not, converts to a value that converts back to the same code, and color codes outside the documented range are errors.",
  ["inputs"], "all 32-bit page numbers, all 16-bit file types, all 8-bit colors, all 32-bit page types",
  "Tests check a few literals.", ["src/util.rs", "src/pdb/mod.rs"], [("PageIndex, FileType, ColorIndex, PageType", "src/util.rs")], ["conversions, read/write"])
p("C32", "Typed access hands out exactly the rows and pages that are there",
  "A row, page content or playlist node asked for as a certain kind is handed out exactly if it is of that kind, and then it is the very value stored: typed access to rows of each type, data and index contents of a page, mutable and shared, and typed iteration over a page's rows yields every row of the type and no other. The page type each row type names is the one its table is stored under.",
  ["inputs"], "all row types against all types asked for, all contents of a bounded number of rows", "Tests use the variant they have just built or read.",
  ["src/pdb/mod.rs"], [("RowVariant, as_variant, PAGE_TYPE", "src/pdb/mod.rs"), ("PageContent into_data, into_index", "src/pdb/mod.rs")], ["Row, Page, PageContent accessors"])
p("C33", "Listed playlists show the device's tree and the playlists' tracks",
  "Listing a device's playlists prints one line for every folder and playlist below the root, below its parent, indented by depth, in the order of its row, with its kind and name; below a playlist, one line for every entry in the order of the entries' indices, with artist and title of the track it refers to. Entries of other playlists do not appear. A missing database or table is reported as an error, and so is a database that cannot be read completely.",
  ["inputs", "fault_sequences"], "all kinds, parents, names, entry indices and references within the bounds", "There is no test of the list command.",
  ["src/main.rs"], [("list_playlists", "src/main.rs")], ["the command's output"])
p("C34", "Kinds of files are guessed from their exact names, and options win",
  "A file's database type or setting type is the one the user asked for, whatever the file is called; otherwise the one that has exactly the file's name, wherever the file lies; otherwise none. No type is made up.",
  ["inputs", "configurations"], "all names of bounded length, all options", "There is no test of the command line's guesses.",
  ["src/main.rs", "src/setting.rs"], [("guess_db_type, guess_setting_type", "src/main.rs"), ("SettingType::from_filename", "src/setting.rs")], ["guess_db_type, guess_setting_type"])
p("C35", "Dump commands report all that can be read, and every failure",
  "Dumping a database reports every table in the header's order with the pages and rows of each that is intact, complains about each damaged table without losing the others, and skips tables of unknown types unless they were asked for. Dumping an analysis, setting or XML file fails exactly if the file cannot be read as one; no file content makes a command panic, and a missing file is an error. A dump that reports no failure is complete.",
  ["inputs", "fault_sequences"], "all subsets of damaged and unknown tables, all bytes of bounded-size files", "There is no test of the dump commands.",
  ["src/main.rs"], [("dump_pdb, dump_anlz, dump_setting, dump_xml", "src/main.rs")], ["the commands' output and results"])
p("C36", "Storage that fails or transfers little never yields wrong data silently",
  "Reading or writing an analysis file, a setting file, a collection document or a database whose storage fails at some access ends in an error, or in the right result if the failure did not matter; it never yields other data, reports success for what was not stored, or panics. Storage that is interrupted or transfers few bytes at a time gives the same result as any other. What a flushed or closed database holds has been written and flushed to its storage; after a failure every byte of the file is as it was or as it should be, and what could not be loaded or flushed because of a single failure can be afterwards.",
  ["inputs", "fault_sequences", "crash_points"], "a failure, interruption or empty write at every access, transfers of a few bytes, for small files of every kind",
  "Tests use memory and intact files.", ["src/pdb/io.rs", "src/pdb/mod.rs", "src/anlz.rs", "src/setting.rs", "src/util.rs"], [("Database load_page, flush, close", "src/pdb/io.rs"), ("parse_buffered", "src/util.rs"), ("readers and writers of all structures", "src/pdb/mod.rs")], ["Read, Write and Seek of a failing stream"])
p("C37", "A database is a list of rows with a copy on disk, whatever is done with it",
  "Under any sequence of opening, changing rows, the header or an index page, inserting rows, visiting a table, flushing, closing and abandoning a database, and asking for pages and tables that are not there: every visit of a table yields the rows last stored, in order and nothing else; the file holds, byte for byte, what was last flushed or closed; an abandoned database leaves no trace; a page takes new rows until it is full and then refuses them without harm.",
  ["inputs", "histories"], "all sequences of bounded length over twelve operations, all row contents", "Tests perform one short sequence of edits.",
  ["src/pdb/io.rs", "src/pdb/mod.rs"], [("Database open, load_page, iter_rows, flush, close", "src/pdb/io.rs"), ("Page::allocate_row", "src/pdb/mod.rs")], ["Database and Page over a memory stream"])
p("C38", "Collection XML uses the documented names and does not depend on layout",
  "Every attribute of documents, products, collections, tracks, tempos, position marks, nodes and playlist tracks is read into the field that bears its documented name, and no other, and is written under that name; absent optional fields are not written. Order of attributes and of the document's parts, spaces, comments, quotes, character references and the form of empty elements make no difference. A document that lacks a required attribute is an error.",
  ["inputs"], "all attributes, all values of bounded length", "Tests parse two fixtures; unknown attributes are ignored silently, so a wrong name loses data unnoticed.",
  ["src/xml.rs"], [("serde names", "src/xml.rs"), ("PlaylistGenericNode", "src/xml.rs")], ["quick_xml from_str/to_string of Document"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
