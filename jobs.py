"""What each property's check runs: harness binary, entries, parameters, bounds."""
COMMON_ASSUMPTIONS = [
    "decides the LLVM IR rustc 1.96 emits for the harness + crate (opt-level 1, overflow checks on, panic=abort): semantics of the dev profile users test with; a panic ends the path",
    "allocation never fails; a heap request above 4 GiB counts as a crash; uninitialised/undef bytes read as 0",
    "HashMap seeds are one fixed value; panic message formatting is not executed",
]
PROPS = {}
def prop(id, bin, jobs, bounds, **kw): PROPS[id] = dict(bin=bin, jobs=jobs, bounds=bounds, **kw)

prop('C01', 'c01', [
    dict(entry='h_chars', params=[0, 1, 2, 3], thorough=[0, 1, 2, 3, 4]),
    dict(entry='h_ascii', params=[0, 1, 2, 7, 8, 9, 40, 125, 126, 127, 128, 200], thorough=list(range(0, 140)) + [255, 256, 257, 600]),
    dict(entry='h_mixed', params=[(7, 0, 2), (7, 0, 3), (8, 3, 3), (14, 13, 3), (130, 0, 2)], thorough=[(n, a, c) for n in (5, 6, 7, 8, 9, 13, 14, 20) for a in (0, 1, n - 1) for c in (2, 3, 4)]),
    dict(entry='h_limit', params=[(32767, 1, 0), (32766, 1, 1), (32768, 1, 0), (32765, 2, 1), (32764, 2, 1), (32764, 3, 1), (65540, 1, 0)], steps=30_000_000),
    dict(entry='h_isrc'), dict(entry='h_isrc_empty'), dict(entry='h_ambiguous'),
], 'every text of <=3 characters of any code point (thorough 4); ASCII texts of the listed lengths with every character arbitrary; texts with one wide character among <=14 (130) arbitrary ASCII ones; texts at the 32767-byte limit with 7 arbitrary characters')
prop('C02', 'c02', [
    dict(entry='h_chars', params=[0, 1, 2, 3], thorough=[0, 1, 2, 3, 4, 5]),
    dict(entry='h_ascii', params=[0, 1, 2, 8, 60, 124, 125, 126, 127, 128, 251, 252, 253, 256, 300], thorough=list(range(0, 300)) + [511, 512, 600]),
    dict(entry='h_mixed', params=[(7, 0, 2), (8, 3, 3), (9, 4, 4), (14, 13, 3), (126, 60, 2), (127, 0, 3), (128, 127, 4)], thorough=[(n, a, c) for n in (5, 6, 7, 8, 9, 13, 14, 20, 126, 127, 128) for a in (0, 1, n - 1) for c in (2, 3, 4)]),
    dict(entry='h_limit', params=[(32767, 1, 0), (32768, 1, 0), (32766, 1, 1), (32765, 2, 1), (32764, 2, 1), (32764, 3, 1), (32763, 4, 1), (32766, 2, 1), (65531, 1, 0), (65532, 1, 0), (65536, 1, 0), (65540, 1, 0), (65534, 2, 1), (70000, 3, 1)], steps=40_000_000),
    dict(entry='h_isrc', params=list(range(0, 16)) + [24, 256 + 12]),
    dict(entry='h_isrc_wide', params=[(n, c) for n in (9, 10, 11, 12) for c in (2, 3, 4)]),
], 'every text of <=3 characters of any code point; ASCII texts of the listed lengths (0..300) with every character arbitrary; one wide character in <=128 arbitrary ASCII ones; texts around the 32767-byte and 65535-byte limits with <=6 arbitrary characters; ISRC candidates of 0..15, 24 and 268 arbitrary non-NUL ASCII characters and of 9..12 characters with one wide one')
prop('C03', 'c03', [
    dict(entry='h_any', params=list(range(0, 13)), thorough=list(range(0, 25))),
    dict(entry='h_show', params=[1, 2, 3, 4, 5], thorough=[1, 2, 3, 4, 5, 6]),
    dict(entry='h_short', params=[0, 1, 2, 6, 30, 126], thorough=list(range(0, 127))),
    dict(entry='h_long', steps=40_000_000, params=[(n, 0, 0) for n in (0, 1, 2, 13, 14, 200, 300)] + [(n, 1, 0) for n in (0, 1, 2, 3, 6, 12, 13, 14, 15, 16, 30)] + [(n, 1, 1) for n in (2, 4, 6)], thorough=[(n, k, 0) for n in range(0, 40) for k in (0, 1)] + [(n, 1, 1) for n in (2, 4, 6, 8)]),
    dict(entry='h_len', params=[0, 40, 300]),
], 'every byte string of <=12 bytes (thorough 24) and of <=5 bytes (thorough 6) for formatting; wide strings of <=3 arbitrary units for formatting; complete short strings of <=126 arbitrary content bytes; complete long strings with <=300 arbitrary content bytes (16 for the wide form); every header over fixed bodies of 0, 40 and 300 bytes')

prop('C04', 'c04', [
    dict(entry='h_two', params=[(0, 0, 8, 4), (1, 3, 20, 4)], thorough=[(w, b, o, 4) for w in (0, 1) for b in (0, 1, 4) for o in (0, 8, 20, 0x1c, 0x5c)]),
    dict(entry='h_far', params=[(0, 0, 8, a, b) for a, b in ((0, 0), (126, 118), (126, 126), (240, 3), (241, 3), (242, 3), (250, 0))] + [(1, 4, 8, a, 4) for a in (126, 127, 260)], thorough=[(0, 0, 8, a, 3) for a in range(225, 256)] + [(1, 4, 8, a, b) for a in (0, 126, 127, 260, 600) for b in (0, 126, 127)]),
    dict(entry='h_three', params=[(w, b, o, n, 1, 2) for w in (0, 1) for b, o, n in ((0, 8, 0), (1, 20, 1), (4, 0x1c, 2), (0, 0x5c, 3))], thorough=[(w, b, o, n, k, 2) for w in (0, 1) for b in (0, 1, 4) for o in (8, 20, 0x1c, 0x5c) for n in range(5) for k in (1, 2)]),
    dict(entry='h_limit', params=[(0, 240, 20), (1, 65520, 20)], thorough=[(0, 0, 256), (1, 65400, 200)]),
    dict(entry='h_words', params=[(0, 14, 4, 4), (0, 14, 5, 2), (1, 14, 4, 4)], thorough=[(0, 24, 4, 4), (0, 24, 9, 2), (1, 24, 4, 4), (1, 24, 9, 3)]),
    dict(entry='h_bytes', params=[(0, 12, 4, 4), (1, 14, 4, 3)], thorough=[(0, 20, 8, 8), (1, 20, 4, 3)]),
    dict(entry='h_base', params=[0, 8, 30]), dict(entry='h_mismatch'),
], 'computed arrays of 2-3 strings with every text of <=2 characters, ASCII texts of the listed lengths around the 8-bit limit, three-byte items at every distance around 255 and 65535; arrays read from every image of the listed sizes (<=14, thorough 24 bytes); every 64-bit base distance')

C05_FIELDS = [1, 3, 1, 1, 2, 1, 5, 2, 3, 3, 4]
prop('C05', 'c05', [
    dict(entry='h_simple', params=[(k, s, n, 4 * (k % 2)) for k in range(8) for s, n in ((0, 0), (0, 5), (1, 3), (2, 2), (3, 12))] + [(k, 0, 0, a) for k in (8, 9, 10) for a in (0, 4)], thorough=[(k, s, n, a) for k in range(8) for a in (0, 1, 4) for s, n in ((0, 0), (0, 1), (0, 5), (0, 126), (1, 0), (1, 3), (1, 200), (2, 0), (2, 1), (2, 7), (2, 60), (3, 12))] + [(k, 0, 0, a) for k in (8, 9, 10) for a in (0, 1, 4)]),
    dict(entry='h_color'),
    dict(entry='h_history', params=[(0, 3, 0, 0), (1, 3, 0, 4), (2, 2, 3, 0), (0, 0, 2, 0)], thorough=[(a, n, b, p) for a in range(4) for b in range(4) for n in (0, 1, 3, 10, 40) for p in (0, 4)]),
    dict(entry='h_history_marker'),
    dict(entry='h_name', params=[(k, w, s, n, g, 4 * w) for k in (0, 1) for w in (0, 1) for s, n, g in ((0, 4, 0), (1, 3, 2), (2, 2, 1), (3, 12, 0))] + [(k, 1, 0, 3, 300, 0) for k in (0, 1)], thorough=[(k, w, s, n, g, p) for k in (0, 1) for w in (0, 1) for p in (0, 4) for s, n in ((0, 0), (0, 4), (0, 126), (1, 3), (1, 130), (2, 2), (2, 40), (3, 12)) for g in (0, 1, 2, 3, 6, 60)]),
    dict(entry='h_track', params=[(w, i, s, n, o) for i, (w, s, n, o) in enumerate(((0, 3, 12, 0), (0, 0, 5, 1), (1, 0, 5, 0), (1, 1, 4, 1), (0, 1, 4, 0), (0, 2, 2, 1), (1, 2, 2, 0), (1, 3, 12, 1)))] + [(i % 2, i, (0, 1, 2)[i % 3], 3, (i // 2) % 2) for i in range(8, 21)], thorough=[(w, i, s, n, o) for i in range(21) for w in (0, 1) for s, n in ((0, 5), (1, 4), (2, 3), (3, 12)) for o in (0, 1)]),
    dict(entry='h_subtype'),
    dict(entry='h_field', params=[(k, i) for k, n in enumerate(C05_FIELDS) for i in range(n)]),
    dict(entry='h_history_field', params=[0, 1, 2]),
    dict(entry='h_name_field', params=[(0, i) for i in range(5)] + [(1, i) for i in range(2)]),
    dict(entry='h_track_field', params=list(range(27))),
    dict(entry='h_track_string', params=[(i, i % 2) for i in range(21)]),
    dict(entry='h_track_codes', params=[0, 1]),
], 'every value of every fixed field of every row type; strings of all four encodings with arbitrary content of the listed lengths; one arbitrary string at a time in a track row, both offset widths, offsets in ascending and descending order; row at several positions')

prop('C06', 'c06', [
    dict(entry='h_tag', params=[(w, a, n, b, m, p, 4 * p) for w in (0, 1) for p in (0, 1) for a, n, b, m in ((0, 4, 0, 0), (1, 3, 2, 2), (2, 2, 3, 12), (3, 12, 1, 2))] + [(1, 1, 200, 0, 3, 0, 0)], thorough=[(w, a, n, b, m, p, q) for w in (0, 1) for p in (0, 1) for q in (0, 1, 4) for a, n in ((0, 0), (0, 100), (1, 60), (2, 30), (3, 12)) for b, m in ((0, 0), (0, 40), (1, 3), (2, 0), (2, 7), (3, 12))]),
    dict(entry='h_track_tag', params=[0, 4], thorough=[0, 1, 2, 3, 4, 5, 8]),
    dict(entry='h_marker'), dict(entry='h_table_marker', params=[0, 1]), dict(entry='h_short', params=list(range(14))),
], 'every value of every fixed field; strings of all four encodings with arbitrary content of the listed lengths; both offset widths and both string orders')

prop('C07', 'c07', [
    dict(entry='h_string', params=[(0, 0), (0, 1), (0, 126), (1, 0), (1, 1), (1, 127), (1, 300), (2, 0), (2, 1), (2, 200), (3, 12), (1, 65531)], thorough=[(0, n) for n in range(127)] + [(1, n) for n in list(range(0, 300, 7)) + [65530, 65531]] + [(2, n) for n in list(range(0, 300, 7)) + [32765]] + [(3, 12)]),
    dict(entry='h_text', params=[(0, 0), (1, 1), (2, 127), (3, 126)], thorough=[(4, n) for n in (126, 127, 128, 300)]),
    dict(entry='h_simple', params=[(k, s, n) for k in range(8) for s, n in ((0, 0), (0, 5), (1, 130), (2, 2), (3, 12))] + [(k, 0, 0) for k in (8, 9, 10)], thorough=[(k, s, n) for k in range(8) for s, n in [(0, i) for i in (0, 1, 60, 126)] + [(1, i) for i in (0, 130, 2000)] + [(2, i) for i in (0, 1, 130)] + [(3, 12)]] + [(k, 0, 0) for k in (8, 9, 10)]),
    dict(entry='h_history', params=[(0, 3, 0, 4, 0, 0), (1, 3, 2, 2, 3, 12), (2, 2, 1, 3, 0, 1), (3, 12, 0, 0, 1, 130)], thorough=[(a, n, b, n, c, n) for a in range(4) for b in range(4) for c in range(4) for n in (0, 3, 100)]),
    dict(entry='h_link'),
    dict(entry='h_name', params=[(k, w, s, n) for k in (0, 1) for w in (0, 1) for s, n in ((0, 0), (0, 4), (1, 3), (2, 2), (3, 12))] + [(k, 1, 1, 400) for k in (0, 1)], thorough=[(k, w, s, n) for k in (0, 1) for w in (0, 1) for s in range(4) for n in list(range(9)) + [100]]),
    dict(entry='h_tag', params=[(w, a, n, b, m) for w in (0, 1) for a, n, b, m in ((0, 4, 0, 0), (1, 3, 2, 2), (2, 2, 3, 12), (3, 12, 1, 2), (0, 1, 2, 3))], thorough=[(w, a, n, b, m) for w in (0, 1) for a in range(4) for b in range(4) for n in (0, 1, 2, 3, 30) for m in (0, 1, 2, 3, 30)]),
    dict(entry='h_track', params=[(w, i, a, n, j, b, m) for w in (0, 1) for i, a, n, j, b, m in ((0, 3, 12, 17, 2, 3), (1, 0, 7, 20, 1, 5), (5, 2, 2, 6, 2, 1), (19, 1, 3, 20, 2, 1))], thorough=[(w, i, a, 3, (i + 5) % 21, b, 2) for w in (0, 1) for i in range(21) for a in range(4) for b in range(4)]),
    dict(entry='h_tag_text', params=[0, 1]),
], 'every fixed field of every row type; strings of all four encodings with arbitrary content of the listed lengths; tags with every pair of texts of <=2 and <=1 characters')

prop('C08', 'c08', [
    dict(entry='h_flags', params=[(0, 12, 0, 0x140), (8, 8, 0x00a5, 0x140), (4, 8, 0x8001, 0x140)], thorough=[(0, 16, 0, 0x140), (4, 12, 0xa, 0x140), (2, 12, 0x8001, 0x140)]),
    dict(entry='h_groups', params=[(1, 1), (3, 3), (15, 7), (17, 4), (32, 4), (33, 3)], thorough=[(1, 1), (5, 5), (15, 10), (17, 6), (31, 6), (32, 6), (33, 4)]),
    dict(entry='h_offsets', params=[(1, 0x140), (2, 0x60)], thorough=[(1, 0x400), (2, 0xa0), (3, 0x60)]),
    dict(entry='h_kind'),
], 'one row group with 8-12 (thorough 16) arbitrary presence bits at three places and every stored valid count; 1-3 groups with 3-7 arbitrary bits each; one or two rows at every heap offset of pages of <=256 bytes; row contents arbitrary')

prop('C09', 'c09', [
    dict(entry='h_header', params=[0x60, 0x100], thorough=[0x60, 0x100, 0x1000]),
    dict(entry='h_rows', params=[(0x140, 16, 0, 6, 0), (0x140, 16, 5, 6, 0), (0x140, 16, 10, 6, 0), (0x100, 9, 0, 6, 4), (0x100, 1, 0, 1, 0)], thorough=[(0x140, 16, 0, 10, 0), (0x140, 16, 6, 10, 0), (0x140, 16, 3, 10, 0), (0x100, 9, 0, 9, 4)]),
    dict(entry='h_groups', params=[(0x240, 17, 4), (0x240, 32, 3), (0x280, 35, 2)], thorough=[(0x240, 17, 6), (0x240, 32, 5), (0x280, 35, 3)]),
    dict(entry='h_places', params=[0x58], thorough=[0x58, 0x70]),
    dict(entry='h_names', params=[(w, s, n) for w in (0, 1) for s, n in ((0, 4), (1, 3), (2, 2), (3, 12))], thorough=[(w, s, n) for w in (0, 1) for s, n in ((0, 4), (0, 30), (1, 3), (1, 30), (2, 2), (2, 14), (3, 12))]),
    dict(entry='h_types', params=[0, 1]),
], 'every header field; pages of <=640 bytes with 1-35 stored rows, 6-10 arbitrary presence bits at three places of one group or 2-4 in each of 2-3 groups, arbitrary row contents, rows packed or with gaps; two rows at every pair of places in an 88-byte page; named rows with strings of all encodings; every page type number')

prop('C10', 'c10', [
    dict(entry='h_room', params=[(0x60, 0, 0), (0x100, 1, 1), (0x200, 15, 0x5555), (0x200, 16, 0x7fff), (0x240, 17, 0xffff), (0x1000, 3, 5), (0x10000, 2, 3)], thorough=[(ps, n, f) for n, f in ((0, 0), (1, 1), (1, 0), (2, 3), (3, 5), (15, 0x7fff), (16, 0xffff)) for ps in (0x200, 0x1000, 0x10000)] + [(ps, n, 0xffff) for n in (17, 31, 32) for ps in (0x400, 0x1000)]),
    dict(entry='h_insert', params=[(0x60, 0, 0, 3, 2), (0x80, 2, 2, 2, 2), (0x100, 3, 1, 3, 0), (0x140, 15, 1, 3, 0), (0x140, 16, 2, 2, 1), (0x240, 31, 1, 2, 0), (0x280, 32, 1, 2, 0)], thorough=[(0x60, 0, 0, 4, 4), (0x80, 2, 2, 4, 3), (0x100, 3, 3, 4, 1), (0x140, 14, 2, 3, 1), (0x140, 15, 3, 3, 1), (0x140, 16, 4, 3, 1), (0x240, 31, 2, 3, 0), (0x280, 32, 2, 3, 0), (0x1000, 17, 3, 3, 2)], steps=12_000_000),
    dict(entry='h_limit', params=[(8190, 0, 0x10000), (8191, 0, 0x10000), (2046, 2046, 0x8000), (2047, 2047, 0x8000)], thorough=[(8189, 100, 0x10000), (8190, 0, 0x10000), (8191, 0, 0x10000), (8191, 2047, 0x10000), (2046, 2046, 0x8000), (2047, 2047, 0x8000), (4000, 2046, 0x10000), (4000, 2047, 0x10000)], steps=60_000_000),
    dict(entry='h_large', params=[0, 40, 65000, 65520, 65532]), dict(entry='h_index'),
], 'any requested size on pages of 0x60-0x10000 bytes with 0-17 rows and every consistent free/used size; sequences of 2-3 (thorough 4) insertions of 12..17-byte rows into pages with 0-3, 15-16 and 31-32 rows, arbitrary presence of the last rows, gaps; counters at their limits; pages larger than 64 KiB', assumptions=['pages are well formed: used size, free size and row directory together do not exceed the page, every row lies within the used size, the used size is a multiple of four', 'the announced size is at least the row size (C07)'])

prop('C11', 'c11', [
    dict(entry='h_entry'), dict(entry='h_raw'), dict(entry='h_show', time=200),
    dict(entry='h_page', params=[(0x60, 0, 4), (0x60, 3, 3), (0x60, 4, 4), (0x100, 44, 2), (0x1000, 1004, 4), (0x1000, 500, 4)], thorough=[(ps, n, 8) for ps in (0x60, 0x64, 0x100, 0x1000) for n in sorted({0, 1, (ps - 80) // 8, (ps - 80) // 4 - 1, (ps - 80) // 4})], steps=20_000_000),
    dict(entry='h_count', params=[(0x60, 0), (0x60, 0x80), (0x54, 12)], thorough=[(0x50, 0), (0x54, 12), (0x60, 0), (0x60, 0x80), (0x100, 0x200)]),
    dict(entry='h_marker', params=list(range(10))),
    dict(entry='h_user', params=[(0x60, 0), (0x60, 4), (0x60, 5), (0x60, 40)]),
    dict(entry='h_tiny', params=[0, 32, 40, 60, 79]),
], 'every page number and flag value, every stored entry; index pages of 0x60-0x1000 bytes with arbitrary header fields and up to 5 arbitrary entries; every stored entry count on small pages followed by further data', assumptions=['the page size is a multiple of four', 'empty slots and the last 20 bytes of a page in a file are in the normal form the library writes'])

prop('C12', 'c12', [
    dict(entry='h_pages', params=[(3, u, f) for u in (2, 4) for f in range(5)] + [(3, 0, 1), (3, 1, 1), (3, 6, 1), (3, 6, 3), (3, 6, 4)], thorough=[(3, u, f) for u in range(7) for f in range(6)] + [(4, u, f) for u in (4, 5, 6) for f in (1, 2, 4)], time=800),
    dict(entry='h_far'), dict(entry='h_rows', params=[(m, s) for m in (0, 1, 2, 3) for s in (0, 1)], thorough=[(m, s) for m in (0, 1, 2, 3, 4, 5) for s in (0, 1)]),
    dict(entry='h_foreign', params=[8, 12, 0x77]), dict(entry='h_missing'), dict(entry='h_load', params=[0, 1, 3, 4, 7]),
], 'chains over three (thorough four) pages with every combination of links, last page, first page and next-unused page; arbitrary 32-bit page numbers over two pages; tables of two data pages with up to 3 (thorough 5) rows each, every presence combination and two orders; every page number loaded')

prop('C13', 'c13', [
    dict(entry='h_same', params=[(ps, m, h) for ps in (0x60, 0x80) for m in (0, 5) for h in (0, 1, 2)], thorough=[(ps, m, h) for ps in (0x60, 0x64, 0x80, 0x1000) for m in (0, 1, 5, 0x60) for h in (0, 1, 2)], steps=20_000_000),
    dict(entry='h_edit', params=[(p, r, c) for p, r in ((2, 0), (2, 1), (3, 1)) for c in (0, 1)]),
    dict(entry='h_edit_all'), dict(entry='h_insert', params=[2, 3]), dict(entry='h_place'), dict(entry='h_store', params=[1, 2, 4]), dict(entry='h_ext'),
], 'databases of five small pages (header, index, two data pages, an unused page, trailing bytes) with arbitrary slack, heap and row bytes; every combination of loaded pages; every new value of the edited rows and header fields; one inserted row; every page size for the position a page is loaded from and written to', assumptions=['index pages are in the normal form the library writes (empty slots, twenty zero bytes)'])

prop('C14', 'c14', [
    dict(entry='h_type', params=[0, 1]),
    dict(entry='h_header', params=[(0, 0, 0), (1, 0, 1), (1, 1, 1), (2, 0, 0), (3, 1, 0), (2, 1, 1), (20, 0, 0)], thorough=[(n, e, 0) for n in (0, 1, 2, 3, 20, 64) for e in (0, 1)] + [(1, 0, 1), (1, 1, 1), (2, 0, 1), (2, 1, 1), (3, 1, 1)]),
    dict(entry='h_marker', params=list(range(8))), dict(entry='h_short', params=[0, 3, 11, 12, 27, 28, 43, 44, 59], thorough=list(range(60))),
    dict(entry='h_find', params=[(n, e) for n in (0, 1, 2, 3) for e in (0, 1)], thorough=[(n, e) for n in (0, 1, 2, 3, 4, 5) for e in (0, 1)]),
], 'every value of every header and table field for 0-3 and 20 tables (table types arbitrary for up to two tables); every page type code; every combination of four types over up to 3 (thorough 5) tables; truncated headers with every declared table count')
prop('C15', 'c15', [
    dict(entry='h_counts'), dict(entry='h_set_counts'), dict(entry='h_new'), dict(entry='h_flags'), dict(entry='h_set_flag', params=list(range(8))), dict(entry='h_pages'), dict(entry='h_in_page'),
], 'every 24-bit counter value, every new value of either counter; every flag byte and every flag set or cleared')

prop('C29', 'c29', [
    dict(entry='h_read', params=[(k, 5, 3, 3, p, f) for k in (0, 1, 2, 3, 5) for p, f in ((0, 0), (1, 0))] + [(2, 4, 2, 3, 1, 1), (3, 60, 2, 60, 0, 0)], thorough=[(k, 9, 4, 3, p, f) for k in range(7) for p in (0, 1) for f in (0, 1)]),
    dict(entry='h_write', params=[(k, 3, 3, p, f) for k in (0, 1, 2, 3, 5) for p, f in ((0, 0), (1, 0))] + [(2, 3, 2, 1, 1)], thorough=[(k, 4, 3, p, f) for k in range(7) for p in (0, 1) for f in (0, 1)]),
    dict(entry='h_round', params=[(k, n, 1, 1, 0) for k in (1, 2, 3) for n in (0, 1, 4, 5)] + [(19, 64, 0, 0, 0), (2, 4, 1, 1, 1)], thorough=[(k, n, 1, 1, f) for k in (1, 2, 3, 5, 7) for n in (0, 1, 4, 5, 6) for f in (0, 1)] + [(19, 300, 0, 0, 0)]),
    dict(entry='h_seek', params=[(k, n, 0) for k in (1, 2, 3, 4) for n in (4, 6)] + [(3, 5, 1)], thorough=[(k, n, p) for k in range(1, 8) for n in (4, 7, 12) for p in (0, 1)]),
], 'keys of 0-5 arbitrary bytes (19 for whole buffers); up to 3 (thorough 4) reads or writes of up to 3 bytes each over a stream that transfers any smaller amount and may be interrupted once; whole-buffer transfers of up to 6 bytes split in every way; two seeks of every kind to every position')
prop('C30', 'c30', [
    dict(entry='h_page_index'), dict(entry='h_stored_index'), dict(entry='h_file_type'), dict(entry='h_color'), dict(entry='h_ids'), dict(entry='h_table_index'),
    dict(entry='h_align', params=[1, 2, 3, 4, 8, 16, 4096], thorough=list(range(1, 33)) + [64, 4096, 65536]),
], 'every 32-bit page number with every 32-bit page size; every 16-bit file type, every color byte, every 32-bit id and 16-bit subtype; every 64-bit offset for the listed power-of-two alignments (16-bit offsets for 3)')

prop('C16', 'c16', [
    dict(entry='h_section', params=[(k, n, 0, 0) for k in (0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) for n in (0, 1, 2, 5)] + [(2, n, c, t) for n, c, t in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 3, 2), (2, 0, 4), (3, 0, 1), (4, 3, 0))] + [(14, n, c, 0) for n, c in ((0, 0), (0, 1), (1, 0), (7, 5), (40, 16))],
         thorough=[(k, n, 0, 0) for k in (0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) for n in list(range(0, 20)) + [50, 100]] + [(2, n, c, t) for n in range(5) for c in range(4) for t in (0, 1, 5, 20)] + [(14, n, c, 0) for n in (0, 1, 2, 7, 40, 300) for c in (0, 1, 2, 5, 16, 100)]),
    dict(entry='h_kind'), dict(entry='h_header', params=list(range(16))),
    dict(entry='h_beats', params=[1, 3], thorough=[1, 2, 3, 10, 40]),
    dict(entry='h_cues', params=[1, 2], thorough=[1, 2, 5, 10]),
    dict(entry='h_xcues', params=[(1, 0, 0), (2, 1, 3), (3, 0, 20)], thorough=[(n, c, t) for n in (1, 2, 4) for c in range(4) for t in (0, 1, 20)]),
    dict(entry='h_wave', params=[(k, n) for k in range(5, 12) for n in (1, 4)], thorough=[(k, n) for k in range(5, 12) for n in (1, 2, 3, 4, 10, 60)]),
    dict(entry='h_edit_wave'), dict(entry='h_path', params=[0, 1, 5], thorough=[0, 1, 2, 5, 30]),
    dict(entry='h_invalid', params=list(range(15))),
], 'every section kind with 0..5 (thorough 0..20, 50, 100) entries and every value of every field; extended cues with comments of 0..3 arbitrary units and 0..20 trailing bytes; every four-byte tag; every header size pair')

prop('C17', 'c17', [
    dict(entry='h_file', params=[(k, 1 + k % 2, k % 3, (0, 16, 5)[k % 3]) for k in range(15)], thorough=[(k, n, m, h) for k in range(15) for n in (0, 1, 2, 4) for m in (0, 1, 3) for h in (0, 1, 16)]),
    dict(entry='h_sizes', params=[(k, n) for k in range(15) for n in (0, 1)], thorough=[(k, n) for k in range(15) for n in (0, 1, 2, 3, 5)]),
    dict(entry='h_entries', params=[(k, n) for k in range(14) if k != 4 for n in (0, 1, 2)], thorough=[(k, n) for k in range(14) if k != 4 for n in (0, 1, 2, 3, 8)]),
    dict(entry='h_file_size', params=[0, 3, 5, 14], thorough=list(range(15))), dict(entry='h_file_kind'),
    dict(entry='h_cue', params=[0, 1]),
    dict(entry='h_xcue', params=[(i, c, t, f) for i in (0, 1) for c, t in ((0, 0), (1, 3), (2, 2)) for f in (0, 1)], thorough=[(i, c, t, f) for i in (0, 1) for c in range(4) for t in (0, 1, 2, 4, 20) for f in (0, 1)]),
    dict(entry='h_unknown', params=[0, 1, 9], thorough=[0, 1, 2, 9, 40]),
    dict(entry='h_foreign', params=[(k, n) for k in range(14) for n in (0, 2)], thorough=[(k, n) for k in range(14) for n in (0, 1, 2, 5)]),
    dict(entry='h_kinds', params=[(k, n) for k in range(14) for n in (0, 1)], thorough=[(k, n) for k in range(14) for n in (0, 1, 2, 5)]),
    dict(entry='h_any', params=[(k, n) for k in range(14) for n in (0, 4, 12, 20)], thorough=[(k, n) for k in range(14) for n in (0, 1, 4, 8, 12, 16, 20, 21, 28)]),
], 'every section kind with 0..2 (thorough 4) entries of arbitrary content in files of three sections; every value of the size, total size and entry count fields of each kind, of both size fields of a cue entry and of the total size and comment length of an extended cue, over sections of 0..2 entries followed by a fixed unknown section; every content of 0..20 bytes under each tag; the content of each kind under every unknown tag and under the tag of every other kind', outside='extended cues whose comment is nothing but a terminator (known finding of C19)')
prop('C18', 'c18', [
    dict(entry='h_detect', steps=40_000_000, params=[(n, m) for n in (0, 1, 2, 3, 52, 53, 54) for m in (0, 1)] + [(n, 1) for n in (29, 35, 200, 255, 256, 257)], thorough=[(n, m) for n in range(0, 310) for m in (0, 1)]),
    dict(entry='h_forms', steps=40_000_000, params=[(2, p) for p in range(0, 62)] + [(1, 20), (17, 14 + 24 * 16 + 3), (53, 1), (53, 14 + 24 * 52 + 22)], thorough=[(n, p) for n in (1, 2, 3) for p in range(0, 14 + 24 * n)] + [(n, 14 + 24 * n - 1 - j) for n in range(4, 260, 5) for j in (0, 1, 5, 9)]),
    dict(entry='h_bulk', steps=40_000_000, params=[(n, 0, m) for n in (1, 8, 20) for m in (0, 1)] + [(300, 298, 1), (53, 50, 1)], thorough=[(n, 0, m) for n in (1, 2, 3, 8, 20, 40) for m in (0, 1)] + [(n, n - 1, 1) for n in range(1, 310, 3)]),
    dict(entry='h_count', params=[0, 1, 3]),
], 'entry counts 0..3, 17, 20, 29, 35, 52..54, 200, 255..257, 300 (thorough 0..310), all two-byte moods; every single byte of a two-phrase structure arbitrary in both forms (thorough three phrases and the last phrase up to 260); up to 20 fully arbitrary phrases; every 16-bit count over up to three phrases of data', outside='a mask byte depends on the count only modulo 256, which the code is not assumed to respect beyond the listed counts')
prop('C19', 'c19', [
    dict(entry='h_text', params=[(0, 1), (1, 4), (2, 4)], thorough=[(n, 4) for n in range(4)]),
    dict(entry='h_ascii', params=[1, 5, 40], thorough=list(range(0, 60)) + [200]),
    dict(entry='h_long', steps=40_000_000, params=[(1000, 3), (32767, 2)], thorough=[(1000, 5), (32766, 3), (32767, 3), (40000, 3)]),
    dict(entry='h_bytes', params=[(n, 0) for n in (0, 1, 2, 3, 4, 6)], thorough=[(n, 0) for n in range(0, 9)] + [(8, 9), (10, 11)]),
    dict(entry='h_lone_terminator'),
    dict(entry='h_path', params=[(0, 1), (1, 4), (2, 3)], thorough=[(0, 1), (1, 4), (2, 4), (3, 4)]),
    dict(entry='h_path_bytes', params=[0, 1, 2, 3, 4, 7, 10], thorough=list(range(0, 25))),
    dict(entry='h_cue', params=[(0, 1, 0), (1, 4, 2), (2, 3, 1)], thorough=[(n, 4, t) for n in range(3) for t in (0, 1, 4)]),
], 'comments of <=2 (thorough 3) characters of any code point, ASCII ones of <=40 characters, long ones to 32767 units; every length prefix over <=6 (thorough 8) arbitrary bytes; paths of <=2 (3) characters and every path section of <=10 (24) bytes')
prop('C20', 'c20', [
    dict(entry='h_file', params=[0, 3, 11, 12, 14, 24], thorough=list(range(0, 40))),
    dict(entry='h_sections', params=[(0, 12), (0, 24), (4, 16), (0, 30)], thorough=[(h, n) for h in (0, 4, 16) for n in (12, 20, 24, 30, 36, 40)]),
    dict(entry='h_section', params=[(k, n) for k in range(16) for n in (0, 3, 8, 12, 20, 30)], thorough=[(k, n) for k in range(16) for n in range(0, 50, 2)]),
    dict(entry='h_damage', params=[(k, 2, p) for k in range(15) for p in (4, 8, 12, 16, 20, 24)] + [(k, 2, p) for k in (1, 2) for p in (28, 32, 36, 48, 60)], thorough=[(k, n, p) for k in range(15) for n in (0, 1, 2, 3) for p in range(0, 64, 2)]),
    dict(entry='h_show', params=[(k, 1) for k in (0, *range(4, 12), 14)]),
], 'every file of <=24 (thorough 40) bytes; every section of <=30 (50) content bytes under each tag, with any sizes; well-formed two-entry sections of each kind with any four bytes replaced at the listed places and cut at nine places')

OPTIONS = [4, 13, 22, 7]
FIXED = [28, 27, 6, 32]
prop('C22', 'c22', [
    dict(entry='h_options', params=[(k, i, 2, i % 2) for k in range(4) for i in range(OPTIONS[k])] + [(0, 0, 4, 0), (3, 0, 3, 1)] + [(k, 0, 0, 1) for k in range(4)], thorough=[(k, i, 3, a) for k in range(4) for i in range(OPTIONS[k]) for a in (0, 1)] + [(0, 0, 4, 0)] + [(k, 0, 0, 1) for k in range(4)]),
    dict(entry='h_set', params=[(k, i) for k in range(4) for i in range(OPTIONS[k])]),
    dict(entry='h_defaults', params=list(range(4))),
    dict(entry='h_strings', params=[(k, i, n) for k in range(4) for i, n in ((0, 0), (0, 31), (1, 31), (2, 31), (1, 7), (2, 1))], thorough=[(k, i, n) for k in range(4) for i in range(3) for n in range(32)]),
    dict(entry='h_texts'),
], '''every file kind; every documented value of each two adjacent options with all other options at their default or at one fixed other value (thorough: three adjacent, both), all four options of DEVSETTING and three of MYSETTING2 at once; every option set to each documented value through its field and written; texts of 0, 1, 7 and 31 arbitrary non-zero bytes in each text field (thorough: every length 0 to 31); the unexplained data bytes arbitrary''', outside='more than three options off their two base values at once')
prop('C23', 'c23', [
    dict(entry='h_oracle', params=[(p, 1) for p in range(20)] + [(18, 2)]),
    dict(entry='h_read', params=[(k, i, 1, 0, i % 2) for k in range(4) for i in range(OPTIONS[k])] + [(0, 0, 4, 0, 0)] + [(k, 0, 0, t, 1) for k, t in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 3), (1, 3), (1, 31), (2, 3), (3, 3))], thorough=[(k, i, 3, 0, a) for k in range(4) for i in range(OPTIONS[k]) for a in (0, 1)] + [(k, 0, 0, t, 1) for k in range(4) for t in (0, 1, 3, 9, 31)]),
    dict(entry='h_edit', params=[(k, i, i % 2) for k in range(4) for i in range(OPTIONS[k])]),
    dict(entry='h_brand', params=[(k, n) for k in range(4) for n in (0, 5, 31)], thorough=[(k, n) for k in range(4) for n in range(32)]),
], '''every file kind; each option at every documented value with the rest at one of two base values (all four of DEVSETTING at once), the stored checksum arbitrary; all unexplained data bytes arbitrary at once; brand and version texts of 3 and 31 arbitrary bytes (thorough: 0, 1, 3, 9, 31); an option or a brand (0, 5, 31 bytes; thorough: every length) edited after reading. The oracle's checksum is itself checked against the bit by bit definition at every position''', outside='more than two options edited at once')
prop('C24', 'c24', [
    dict(entry='h_option', params=[(k, i) for k in range(4) for i in range(OPTIONS[k])]),
    dict(entry='h_fixed', params=[(k, i) for k in range(4) for i in range(FIXED[k])]),
    dict(entry='h_lengths', params=list(range(4))),
    dict(entry='h_kind', params=[(k, j) for k in range(4) for j in range(4) if k != j]),
    dict(entry='h_text', params=[(k, i) for k in range(4) for i in range(3)]),
    dict(entry='h_data', params=[(k, p, 4) for k in range(4) for p in range(0, [32, 52, 40, 40][k], 2)], thorough=[(k, p, 6) for k in range(4) for p in range(0, [32, 52, 40, 40][k], 3)]),
    dict(entry='h_short', params=list(range(4))),
    dict(entry='h_bytes', params=[(k, 0, n) for k in range(4) for n in (3, 20, 40)] + [(k, 4, n) for k in range(4) for n in (31, 32, 33)] + [(k, 100, n) for k in range(4) for n in (3, 8)], thorough=[(k, 0, n) for k in range(4) for n in (3, 20, 40, 70)] + [(k, 4, n) for k in range(4) for n in range(20, 36)] + [(k, 100, n) for k in range(4) for n in (3, 8)]),
    dict(entry='h_long', params=[(k, i, n) for k in range(4) for i in range(3) for n in (31, 32, 200)], thorough=[(k, i, n) for k in range(4) for i in range(3) for n in (0, 1, 30, 31, 32, 33, 95, 96, 97, 200, 1000)]),
], '''every file kind; any byte in place of each option and each fixed byte; any two length fields and trailing word at once; any 32 bytes in place of each text; any window of 4 consecutive data bytes arbitrary at once (thorough: 6); a file of each other kind with any data length; every truncation; 3, 20 and 40 arbitrary bytes, 31 to 33 arbitrary bytes as texts (thorough: up to 70); texts of 31, 32 and 200 bytes on writing (thorough: up to 1000)''', outside='more than 6 arbitrary data bytes at once')

WELL = [117, 8, 13, 25, 8, 12, 12, 24, 12, 8, 12, 8, 15, 8, 29, 34, 16]
prop('C21', 'c21', [
    dict(entry='h_header', params=[(n, e) for e in (0, 1) for n in (0, 27, 28, 43, 44, 60)]),
    dict(entry='h_page', params=[(0, 0), (16, 0), (32, 0)], thorough=[(n, s) for n in (0, 16, 31, 32, 33) for s in (0, n)]),
    dict(entry='h_counts', params=[(n, 0) for n in (32, 40, 96)] + [(96, 96), (96, 60), (200, 200)]),
    dict(entry='h_row', params=[(k, n) for k in range(18) for n in (0, 3, 8)]),
    dict(entry='h_well', params=list(range(17))),
    dict(entry='h_row_damage', params=[(k, p, 2) for k in range(17) for p in range(0, WELL[k], 2 if k else 6)], thorough=[(k, p, 4) for k in range(17) for p in range(0, WELL[k])]),
    dict(entry='h_page_damage', params=[(k, p, 2) for k in (0, 2, 8, 14, 15, 17) for p in range(0, 76, 2) if p not in (38, 40)] + [(k, p, 1) for k in (0, 2, 8, 14, 15, 17) for p in (38, 39, 40)], thorough=[(k, p, 2) for k in range(18) for p in range(0, 76) if p not in (38, 39, 40)] + [(k, p, 1) for k in range(18) for p in (38, 39, 40)]),
    dict(entry='h_index', params=[0x60, 0x50, 0x4f, 0x40, 0]),
    dict(entry='h_file', params=[(n, e) for e in (0, 1) for n in (0, 20, 28, 44)], time=600),
    dict(entry='h_load', params=[(0, 1), (1, 0)], thorough=[(0, 1), (1, 0), (1, 1)]),
    dict(entry='h_damage', params=[(p, 4) for p in range(0, 4 * 0x60, 4) if p not in (280, 284, 380)] + [(280, 2), (282, 2)] + [(p, 1) for p in (284, 285, 380, 381)], thorough=[(p, 4) for p in range(0, 4 * 0x60, 1) if not (280 < p <= 285 or 376 < p <= 381)] + [(p, 1) for p in (284, 285, 380, 381)]),
    dict(entry='h_damage2', params=[(p, q) for p in (4, 12, 36, 40, 0x68, 0x6c) for q in (0xc8, 0xcc, 0xd8, 0xda, 0x11a) if (p, q) != (0x68, 0xd8)]),
    dict(entry='h_cut'),
], 'any 0..60 bytes as a header; any 0, 16, 32 bytes as a page of any page size; page headers with any row counts, flags and sizes of any page size; any 0, 3, 8 bytes as a row of each of the 18 kinds; a well-formed row of each kind, a page holding two rows of each of six kinds, and a small database of two tables with an arbitrary 1-, 2- or 4-byte window at every place, two 2-byte windows at the listed pairs of places, or cut at any multiple of 4; any 0..44 bytes as a file (page size one of seven), opened, tables and pages iterated and a page loaded; any page size, any page index', outside='larger files; more simultaneous damage than two windows; the page types not listed at page level; requests of up to 4 GiB of memory are not flagged')

prop('C25', 'c25', [
    dict(entry='h_tree', params=[(1, 1, 2, 0), (2, 1, 1, 0), (2, 0, 0, 1), (2, 2, 1, 2), (3, 1, 1, 0), (3, 3, 0, 1), (4, 2, 0, 2), (4, 1, 0, 0)], thorough=[(n, s, c, i) for n in (1, 2, 3, 4) for s in range(n + 1) for c in (0, 2) for i in range(3)] + [(5, 3, 0, 0)]),
    dict(entry='h_cycle', params=[1, 2, 3]),
    dict(entry='h_ids', params=list(range(0, 32, 3)), thorough=list(range(32))),
    dict(entry='h_name', params=[(i, n) for i in (0, 1) for n in (1, 3)]),
    dict(entry='h_absent'),
], 'up to 4 rows on two pages with every assignment of parents (root, each row, missing), arbitrary kind, sort order and ASCII names of 0..2 characters under three id schemes; up to 3 rows with any ids and parents below the number of rows (cycles, repeated and zero ids); ids told apart by every bit; any bytes as name of 1 and 3 bytes; any other table type', outside='more rows; names of more than 2 characters (their decoding is C01-C03)')

prop('C28', 'c28', [
    dict(entry='h_playlist', params=[0, 1, 2, 3]),
    dict(entry='h_folder', params=[(n, 1, 1) for n in (0, 1, 2, 3)] + [(2, 0, 2), (1, 1, 2)]),
    dict(entry='h_climb', params=[(k, p, f) for f in (0, 1) for k, n in ((0, 11), (1, 6), (2, 9), (3, 2), (4, 1)) for p in range(n + 1)]),
    dict(entry='h_wide', params=[(n, f) for f in (0, 1) for n in (1, 2, 3)]),
    dict(entry='h_content', params=[1, 2]),
], 'playlist names of 0..3 arbitrary ASCII characters, folders of 0..3 nested up to 2 deep; climbing and absolute names with any one character arbitrary; names of 1..3 arbitrary UCS-2 units, as playlists and as folders', outside='symbolic links already present below the output directory; name collisions between playlists (see C31)')

prop('C26', 'c26', [
    dict(entry='h_load', params=[(15, k, i, 1, i % 2) for k in range(4) for i in range(OPTIONS[k])] + [(m, k, 0, 1, m % 2) for m in range(15) for k in range(4)], thorough=[(15, k, i, 2, a) for k in range(4) for i in range(OPTIONS[k]) for a in (0, 1)] + [(m, k, 0, 2, m % 2) for m in range(15) for k in range(4)]),
    dict(entry='h_damaged', params=[(k, p, 0) for k in range(4) for p in (0, 4, 36, 100, 104, 112, 116, 120, 125)] + [(k, p, 1) for k in range(4) for p in (0, 50, 104, 120, 137)], thorough=[(k, p, h) for k in range(4) for p in range(0, [140, 160, 148, 148][k]) for h in (0, 1)]),
    dict(entry='h_swapped', params=[(k, j) for k in range(4) for j in range(4) if k != j]),
    dict(entry='h_faults', params=[0, 1], steps=40_000_000),
    dict(entry='h_shown', params=[(15, k, i) for k in range(4) for i in range(OPTIONS[k])] + [(m, 0, 0) for m in range(15)]),
    dict(entry='h_name', params=[(k, p) for k in range(4) for p in range(17)]),
    dict(entry='h_short_name', params=[0, 1, 2, 3, 4]),
    dict(entry='h_prefix', params=[(k, f) for k in range(4) for f in (0, 1)]),
], 'every value of each option of each of the four files, one option at a time, every subset of files present, any one byte (thorough: two) arbitrary in each of the values; wrong checksums and arbitrary bytes at the listed places; files swapped; the file system failing at any one operation, or from then on; names that differ from the documented ones in any character or length', outside='two options arbitrary at once (their bytes are separate, see C22)')

prop('C27', 'c27', [
    dict(entry='h_text', params=[(k, n, 0) for k in range(27) for n in (0, 1, 2)] + [(k, 3, 0) for k in (0, 16, 22, 24)] + [(k, 1, c) for k in range(27) for c in (1, 2, 3, 4)] + [(k, 2, 1) for k in (0, 22)], thorough=[(k, n, c) for k in range(27) for n in (0, 1, 2, 3) for c in range(5)]),
    dict(entry='h_whitespace', params=[0, 1]),
    dict(entry='h_absent', params=list(range(27))),
    dict(entry='h_empty', params=[(t, n, f, k) for t in (0, 1, 2) for n in (0, 1, 2) for f in (255, 0, 1, 2) for k in (0, 1, 2)]),
    dict(entry='h_number', params=[(k, n) for k in range(13) for n in (1, 3)], thorough=[(k, n) for k in range(13) for n in (1, 3, 6, 10)]),
    dict(entry='h_float', params=list(range(7))),
    dict(entry='h_many', params=[(a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2)]),
    dict(entry='h_shape', params=[1, 2, 3], thorough=[1, 2, 3, 4]),
    dict(entry='h_counts'), dict(entry='h_wide', params=[(260, 3), (3, 260)], steps=60_000_000), dict(entry='h_order', params=[0, 1]),
    dict(entry='h_damage', params=[(p, 1) for p in range(0, 1250, 3)], thorough=[(p, n) for p in range(1250) for n in (1, 2)]),
], 'texts of 0..2 printable ASCII characters (3 in four fields) and of one character of any UTF-8 length, arbitrary, in each of the 27 text positions; each optional field absent, and all of them; 0..2 tracks, nodes, folders and keys; any number of up to 3 (thorough 10) digits in each integer position; twelve fractional numbers in each float position; 0..3 tempos and 0..2 marks, folders of 260 nodes and playlists of 260 keys, 3 (thorough 4) steps of arbitrary nesting; node attributes in every order; a well-formed document with one arbitrary byte at every third place (thorough: every place, 1 and 2 bytes)', outside='NUL; floating-point values other than the listed ones (the solver does not reason about them); tabs and line breaks in attributes (known finding)')

prop('C31', 'c28', [
    dict(entry='h_lines', params=[(0, 1, 1), (1, 0, 1), (1, 2, 0), (1, 3, 1), (2, 1, 1), (3, 1, 0), (1, 1, 2)], thorough=[(k, n, s) for k in (0, 1, 2, 3) for n in (0, 1, 2, 4) for s in (0, 1, 2, 3)] + [(4, 1, 1)]),
    dict(entry='h_places', params=[(n, f) for n in (1, 2, 4) for f in (0, 1, 2)], thorough=[(n, f) for n in (1, 2, 3, 4, 8) for f in (0, 1, 2, 3, 4)]),
    dict(entry='h_faults', params=[0, 1], steps=40_000_000),
], 'two playlists with up to 3 (thorough 4) entries of any 32-bit index, each naming either of two tracks or a missing one and either playlist or a missing one, track paths of up to 3 arbitrary printable characters with none, one or two (thorough three) leading slashes; folder and playlist names of 1..4 arbitrary plain characters, up to 2 (thorough 4) folders deep; the file system failing at any one operation, or from then on', outside='two entries of one playlist with the same index; playlists of equal names in one folder (the later one replaces the earlier); names that C28 has to change')

prop('C32', 'c32', [
    dict(entry='h_view', params=list(range(15))),
    dict(entry='h_foreign', params=[15, 16, 17]),
    dict(entry='h_own', params=[(k, n) for k in range(17) for n in (0, 200)], thorough=[(k, n) for k in range(17) for n in (0, 3, 16, 60, 200)]),
    dict(entry='h_table', params=[(k, 1 + k % 3) for k in range(15)], thorough=[(k, n) for k in range(15) for n in (0, 1, 2, 3, 4)], steps=20_000_000),
    dict(entry='h_content', params=[0, 1]), dict(entry='h_folder'),
], 'a row of each of the 18 kinds with one arbitrary number in it, viewed as and replaced by each of the 15 types, and read as part of a table of each type, alone and followed by zeros; databases with tables of all 15 plain types in any rotation of their order, one of them with 1 to 3 (thorough 0 to 4) such rows, any of them deleted; every page flag byte over a data and an index page; every folder flag')

prop('C33', 'c33', [
    dict(entry='h_tree', params=[(1, 0), (1, 2), (2, 1), (3, 1)], thorough=[(1, 3), (2, 2), (3, 2)], steps=20_000_000),
    dict(entry='h_tracks', params=[(0, 1), (1, 2), (2, 1)], thorough=[(0, 2), (1, 3), (2, 2), (3, 1)], steps=20_000_000),
    dict(entry='h_wide', params=[1, 2], thorough=[1, 2, 3]),
    dict(entry='h_missing', params=[0, 1, 2, 3, 4]),
    dict(entry='h_faults', params=[0, 1], steps=40_000_000),
], 'trees of up to 3 nodes with any parents (the root, each other, themselves, a missing one), kinds and names of up to 2 printable ASCII characters; up to 2 (thorough 3) entries naming either of two playlists or a missing one, either of two tracks or a missing one, with four indices, artists present or missing, titles and artist names of 1 or 2 printable characters; names of up to 2 (3) arbitrary UCS-2 units; the file system failing at any one operation, or from then on', outside='two entries of one playlist with the same index')
prop('C34', 'c33', [
    dict(entry='h_db', params=[(f, p, d, o) for f in (0, 1) for d, o in ((0, 0), (1, 0), (2, 0), (3, 1), (0, 2)) for p in (0, 3, 6, 9, 12, 99)], thorough=[(f, p, d, o) for f in (0, 1) for d in range(4) for o in range(3) for p in list(range(13)) + [99]]),
    dict(entry='h_setting', params=[(f, p, d, o) for f in range(4) for d, o in ((0, 0), (2, 0), (3, f), (1, 4 - f)) for p in (0, 7, 9, 10, 13, 99)], thorough=[(f, p, d, o) for f in range(4) for d in range(4) for o in range(5) for p in list(range(16)) + [99]]),
    dict(entry='h_name', params=[(n, d, o) for n in range(1, 25) for d, o in ((0, 0), (2, 0), (3, 1), (1, 2))], thorough=[(n, d, o) for n in range(1, 49) for d in range(4) for o in range(3)]),
    dict(entry='h_path', params=[(n, o) for n in (0, 1, 2, 3) for o in (0, 1, 2)], thorough=[(n, o) for n in (0, 1, 2, 3, 4) for o in (0, 1, 2)]),
], 'every file name of 1 to 24 (thorough 48) arbitrary ASCII characters in four directories; the two database and four setting file names, complete and with any one character arbitrary, in four directories, under every choice of the option; every path of up to 3 (thorough 4) arbitrary ASCII characters')
prop('C35', 'c33', [
    dict(entry='h_dump', params=[(a, e) for a in (0, 1) for e in (0, 1)], steps=40_000_000),
    dict(entry='h_any', params=[(0, 0), (0, 12), (0, 15), (1, 3), (2, 8), (5, 0), (5, 27), (6, 0), (6, 1), (6, 2)], steps=40_000_000),
    dict(entry='h_damaged', params=[(0, p, 1) for p in range(3, 42, 3)] + [(k, p, 1) for k in (1, 2, 3, 4) for p in (0, 100, 104, 108, 120)] + [(5, p, 2) for p in range(0, 40, 2)] + [(6, p, 1) for p in range(0, 170, 6)], thorough=[(0, p, 2) for p in range(42)] + [(k, p, 1) for k in (1, 2, 3, 4) for p in range(0, 164)] + [(5, p, 2) for p in range(0, 288, 2)] + [(6, p, 1) for p in range(0, 200)], steps=40_000_000),
    dict(entry='h_dump_faults', params=[(k, p) for k in range(7) for p in (0, 1)], steps=40_000_000),
    dict(entry='h_absent'),
], 'databases of three tables, each intact, of an unknown type, with a chain that leaves the file or with a missing first page, plain and extended, with and without parsing unknown tables; files of the listed numbers of arbitrary bytes; small well-formed files of every kind with one or two arbitrary bytes at the listed places (thorough: everywhere); files that do not exist; the file system failing at any one operation, or from then on, while an intact file of any kind is dumped', outside='the exact text printed for rows and sections')

prop('C36', 'c36', [
    dict(entry='h_read_anlz', params=[(k, m, x) for k in range(15) for m, x in ((0, 1 << 20), (2, 3))] + [(k, 1, 1 << 20) for k in (0, 2, 12)], thorough=[(k, m, x) for k in range(15) for m, x in ((0, 1 << 20), (1, 1 << 20), (2, 1 << 20), (2, 1), (2, 3), (0, 2))], steps=40_000_000),
    dict(entry='h_write_anlz', params=[(k, m, x) for k in range(15) for m, x in ((0, 1 << 20), (2, 3))] + [(k, 3, 1 << 20) for k in (0, 2, 12, 13)], thorough=[(k, m, x) for k in range(15) for m, x in ((0, 1 << 20), (1, 1 << 20), (2, 1 << 20), (2, 1), (2, 3), (3, 5))], steps=40_000_000),
    dict(entry='h_read_setting', params=[(k, m, x) for k in range(4) for m, x in ((0, 1 << 20), (2, 3))], thorough=[(k, m, x) for k in range(4) for m, x in ((0, 1 << 20), (1, 1 << 20), (2, 1), (2, 3), (0, 2))], steps=40_000_000),
    dict(entry='h_write_setting', params=[(k, m, x) for k in range(4) for m, x in ((0, 1 << 20), (2, 3), (3, 1 << 20))], thorough=[(k, m, x) for k in range(4) for m, x in ((0, 1 << 20), (1, 1 << 20), (2, 1), (2, 3), (3, 2))], steps=40_000_000),
    dict(entry='h_read_db', params=[(0, 1 << 20), (1, 1 << 20), (2, 3)], thorough=[(m, x) for m in (0, 1, 2) for x in (1, 3, 1 << 20)], steps=40_000_000),
    dict(entry='h_page', params=[(k, m, x) for k in range(20) for m, x in ((0, 1 << 20), (2, 3))], thorough=[(k, m, x) for k in range(20) for m in (0, 1, 2) for x in (1, 3, 1 << 20)], steps=40_000_000),
    dict(entry='h_write_page', params=[(k, m, x) for k in range(20) for m, x in ((0, 1 << 20), (2, 3), (3, 1 << 20))], thorough=[(k, m, x) for k in range(20) for m in (0, 1, 2, 3) for x in (1, 3, 1 << 20)], steps=40_000_000),
    dict(entry='h_read_xml', params=[(0, 1 << 20), (1, 1 << 20), (2, 3)], thorough=[(m, x) for m in (0, 1, 2) for x in (1, 5, 1 << 20)], steps=40_000_000),
    dict(entry='h_write_xml', params=[(0, 1 << 20), (2, 3), (3, 1 << 20)], thorough=[(m, x) for m in (0, 1, 2, 3) for x in (1, 5, 1 << 20)], steps=40_000_000),
    dict(entry='h_write_db', params=[(m, x, a, c) for m, x in ((0, 1 << 20), (1, 1 << 20), (2, 3), (3, 1 << 20)) for a in (0, 1) for c in (0, 1)], thorough=[(m, x, a, c) for m in range(4) for x in (1, 5, 1 << 20) for a in (0, 1) for c in (0, 1)], steps=40_000_000),
], 'analysis files of two sections of every kind, the four setting files, a collection document and a database of three pages, whose storage fails at any one access (once or from then on), is interrupted at any access, stores nothing in any one write, or transfers at most the listed number of bytes at a time')

prop('C37', 'c37', [
    dict(entry='h_history', params=[(0x60, 3, o, 4) for o in range(12)], thorough=[(ps, r, o, n) for ps, r, n in ((0x60, 3, 5), (0x80, 6, 4)) for o in range(12)], steps=1_000_000_000, time=700),
], 'every sequence of 4 (thorough 5) operations over a table of two data pages with three rows and room for three (thorough also six) each, all row contents, all new numbers; the operations: changing the first and last row, inserting into either page, flushing, closing, abandoning, visiting with and without a change, changing header and index page, asking for what is not there', assumptions=['the file is well formed when first opened'])

prop('C38', 'c38', [
    dict(entry='h_read', params=[(k, n) for k in range(28) for n in (1, 2)], thorough=[(k, n) for k in range(28) for n in (1, 2, 4, 6)]),
    dict(entry='h_all', params=[0, 3, 11], thorough=list(range(28))),
    dict(entry='h_write', params=[(k, n) for k in range(28) for n in (1, 2)]),
    dict(entry='h_inner', params=[(k, n) for k in range(9) for n in (1, 2)]),
    dict(entry='h_outer', params=[(k, n) for k in range(8) for n in (1, 2)], thorough=[(k, n) for k in range(8) for n in (1, 2, 4)]),
    dict(entry='h_missing', params=list(range(17))),
    dict(entry='h_layout', params=[0, 1, 2, 3]),
], 'one attribute at a time with 1 or 2 (thorough up to 6) arbitrary characters or digits, every fraction of a list; all attributes of a track at once in three (28) rotations with one arbitrary character each; each required attribute missing; every choice of spaces, comments, quotes, references and empty elements of a list', outside='texts that need escaping when written (C27); several attributes of more than one character at once')

NOT_APPLICABLE = {}
