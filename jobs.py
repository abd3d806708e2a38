"""What each check runs: harness instances, bounds, assumptions."""


def js(name, *args):
    out = []
    for a in args:
        if isinstance(a, range):
            out += ["%s:%d" % (name, x) for x in a]
        else:
            out.append("%s:%d" % (name, a))
    return out or [name]


def lens(top, least=0, m=1, o=0):
    """m * length + o for every small length and those around powers of two"""
    near = [96, 100, 160, 192, 200, 300, 384, 400] + [x + d for x in (128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536) for d in (-2, -1, 0, 1, 2)]
    return [m * x + o for x in list(range(0, 81)) + sorted(near) if least <= x <= top]


JOBS = {
    "C01": {
        "quick": js("h_c01_walk_all", range(0, 7)) + js("h_c01_cert_all", range(0, 7)) + js("h_c01_ext_all", range(0, 7)) + js("h_c01_name_all", range(0, 7))
        + js("h_c01_list_all", range(0, 7)) + js("h_c01_list_inside", range(0, 7)) + js("h_c01_element_any", 4) + js("h_c01_long", 4, 16, 20, 130)
        + js("h_c01_lengths", range(0, 6)) + js("h_c01_contents", *[k + 8 * n for k in range(0, 7) for n in range(0, 6)])
        + js("h_c01_inside", *[k + 8 * n for k in range(0, 7) for n in range(0, 5)]) + js("h_c01_flip", 0, 1) + js("h_c01_flip_walk") + js("h_c01_flip2")
        + js("h_c01_cut", 0, 1) + js("h_c01_edits", range(0, 4)) + js("h_c01_attributes", 1, 3) + js("h_c01_nest", 5, 100, 400)
        + js("h_c01_texts", 4, 8, 16, 5, 41, 81, 1201, 4001, 42, 402, 1202, 4002, 43, 403, 1203)
        + js("h_c01_large", *[16 * 3000 + k for k in range(0, 16)], *[16 * 20000 + k for k in (0, 1)], *[16 * 70000 + k for k in range(2, 16)]),
        "thorough": js("h_c01_walk_all", 7) + js("h_c01_cert_all", 7, 8) + js("h_c01_ext_all", 7, 8) + js("h_c01_name_all", 7, 8) + js("h_c01_list_all", 7, 8)
        + js("h_c01_list_inside", 7, 8) + js("h_c01_contents", *[k + 8 * n for k in range(0, 7) for n in (6, 7)]) + js("h_c01_inside", *[k + 8 * n for k in range(0, 7) for n in (5, 6)])
        + js("h_c01_attributes", 5) + js("h_c01_long", 257, 1000) + js("h_c01_large", 16 * 70000, 16 * 200000 + 1),
        "covers": ["element", "error", "name", "extension", "certificate"],
    },
    "C02": {
        "quick": js("h_c02_all", range(0, 8)) + js("h_c02_lengths", range(0, 6)) + js("h_c02_long", 120, 128, 250, 300, 1000, 70000) + js("h_c02_many", 300, 1500) + js("h_c02_deep", 40, 300, 1500) + js("h_c02_cut") + js("h_c02_flip") + js("h_c02_junk", 8, 80) + js("h_c02_opaque", *lens(70000), 1100000) + js("h_c02_behind", *[8 * n + k for n in (30, 201) for k in range(1, 5)], *[8 * n + k for n in (1000, 70000) for k in (1, 4)]),
        "thorough": js("h_c02_all", 8, 9) + js("h_c02_many", 2000),
    },
    "C03": {
        "quick": js("h_c03_header", 0, 1) + js("h_c03_short", range(1, 7))
        + js("h_c03_sizes", 0, 1, range(126, 130), 255, 256, 257, 65535, 65536, 16777215, 16777216),
        "thorough": js("h_c03_sizes", 127 + 128, 512, 4095, 4096, 40000, 65534, 65537, 70000),
    },
    "C04": {
        "quick": js("h_c04_shapes", range(0, 12)) + js("h_c04_any", range(1, 4)) + js("h_c04_raw", 3, 4) + js("h_c04_long") + js("h_c04_split"),
        "thorough": js("h_c04_any", 4, 5) + js("h_c04_raw", 5, 6),
    },
    "C05": {
        "quick": js("h_c05_boolean", range(0, 5)) + js("h_c05_null", range(0, 5)) + js("h_c05_nested", range(0, 3)) + js("h_c05_critical", range(0, 3)) + js("h_c05_ca", range(0, 3)) + js("h_c05_params", range(0, 3)),
        "thorough": js("h_c05_boolean", 8, 16) + js("h_c05_null", 8, 16),
    },
    "C06": {
        "quick": js("h_c06_contents", range(0, 7), 8, 20) + js("h_c06_long", *lens(70000, 1), 1100000) + js("h_c06_display", range(1, 5))
        + js("h_c06_display_long", *lens(70000, 5)) + js("h_c06_nested", 1, 3, 5),
        "thorough": js("h_c06_display", 5, 6),
    },
    "C07": {
        "quick": js("h_c07_contents", range(0, 6)) + js("h_c07_long", 34, 40) + js("h_c07_huge", 515, 8200) + js("h_c07_nested", range(1, 4)),
        "thorough": js("h_c07_contents", 6, 7, 8) + js("h_c07_long", 130, 260) + js("h_c07_huge", 33000),
    },
    "C08": {
        "quick": js("h_c08_contents", range(0, 7)) + js("h_c08_many", *lens(4100, 12), 70000) + js("h_c08_first", range(1, 6)) + js("h_c08_nested", 1, 3),
        "thorough": js("h_c08_contents", 7, 8, 9, 10),
    },
    "C09": {
        "quick": js("h_c09_date", 0, 21) + js("h_c09_years") + js("h_c09_clock", range(0, 12)) + js("h_c09_length", *(2 * n + k for n in list(range(0, 4)) + list(range(11, 17)) for k in (0, 1) if (n, k) not in ((13, 0), (15, 1)))) + js("h_c09_syntax", 0, 1),
        "thorough": js("h_c09_date", *(y for y in (1, 2, 10, 17, 18, 19, 20, 22, 23, 24, 25, 30, 41, 50, 64, 99, 100))),
    },
    "C10": {
        "quick": js("h_c10_contents", range(0, 6)) + js("h_c10_window", 16, 40, 130) + js("h_c10_far", 300, 1000, 70000) + js("h_c10_ascii", *lens(70000), 1100000) + js("h_c10_runes", *lens(9000)) + js("h_c10_nested", 1, 3),
        "thorough": js("h_c10_contents", 6, 7),
    },
    "C11": {
        "quick": js("h_c11_all", 0, 2, 4, 5, 6) + js("h_c11_flip") + js("h_c11_flip2") + js("h_c11_cut") + js("h_c11_shapes", 2, 3, 4) + js("h_c11_many", 17, 65, 129, 257, 513, 1025) + js("h_c11_deep", 17, 33, 65, 129, 257, 513, 1025) + js("h_c11_behind", *[8 * n + k for n in (201, 1000) for k in (1, 3)]),
        "thorough": js("h_c11_all", 7, 8) + js("h_c11_many", 2000),
    },
    "C12": {"quick": js("h_c12_nest", 64, 400, 1500), "thorough": js("h_c12_nest", 6000)},
    "C13": {
        "quick": js("h_c13_fields") + js("h_c13_params", 0, 1, 2) + js("h_c13_unused", range(0, 4)) + js("h_c13_long", *lens(70000, 1))
        + js("h_c13_oids", range(1, 6)) + js("h_c13_full") + js("h_c13_algorithms", 0) + js("h_c13_texts", *lens(4100)),
        "thorough": js("h_c13_oids", 6, 7, 8) + js("h_c13_algorithms", 1) + js("h_c13_long", 16, 129, 256, 4096, 65535),
    },
    "C14": {
        "quick": js("h_c14_size", 127, 128, 129, 255, 256, 257, 1000, 65535, 65536) + js("h_c14_flip", 0, 1, 2) + js("h_c14_around", 0, 1, 2)
        + js("h_c14_edits", 0, 1, 2) + js("h_c14_headers"),
        "thorough": js("h_c14_size", range(240, 262, 3), range(300, 600, 50), 65537, 65540, 80000),
    },
    "C15": {
        "quick": js("h_c15_cut", range(0, 4)) + js("h_c15_cut_inner", range(0, 4)) + js("h_c15_append", 4, 9, 10, 15) + js("h_c15_flip", range(0, 4))
        + js("h_c15_flip2", 0) + js("h_c15_edits", *range(0, 16)) + js("h_c15_shift", range(0, 4)) + js("h_c15_all", range(0, 6)) + js("h_c15_stray", range(0, 6)) + js("h_c15_junk", 8, 80),
        "thorough": js("h_c15_flip2", 1, 2, 3) + js("h_c15_edits2", 0, 2) + js("h_c15_append", 16, 20) + js("h_c15_all", 6, 7, 8) + js("h_c15_flip3"),
    },
    "C16": {
        "quick": js("h_c16_wrapper", range(0, 8)) + js("h_c16_integer", range(0, 7)) + js("h_c16_first") + js("h_c16_absent", 1, 3) + js("h_c16_surplus") + js("h_c16_optional"),
        "thorough": js("h_c16_wrapper", 8, 9),
    },
    "C17": {
        "quick": js("h_c17_elements", range(0, 4)) + js("h_c17_order", range(1, 5)) + js("h_c17_unique", range(0, 12)) + js("h_c17_contents", range(1, 6))
        + js("h_c17_raw", range(1, 7)),
        "thorough": js("h_c17_elements", 4) + js("h_c17_order", 5) + js("h_c17_contents", 6, 7) + js("h_c17_raw", 7, 8),
    },
    "C18": {
        "quick": js("h_c18_window") + js("h_c18_now") + js("h_c18_ends") + js("h_c18_times", *[a + 8 * b for a in range(0, 6) for b in range(0, 6) if a == b < 4 or (a + 1) % 6 == b])
        + js("h_c18_shape") + js("h_c18_flip") + js("h_c18_cut"),
        "thorough": js("h_c18_times", *[a + 8 * b for a in range(0, 6) for b in range(0, 6)]),
    },
    "C19": {
        "quick": js("h_c19_grouping", range(1, 5)) + js("h_c19_values", range(0, 4)) + js("h_c19_text", range(0, 5)) + js("h_c19_long", *lens(70000, 1)) + js("h_c19_many", *lens(600, 1), 1000, 1025) + js("h_c19_ascii", *lens(4100), 65535, 65536) + js("h_c19_runes", *lens(1100))
        + js("h_c19_near", range(1, 11)) + js("h_c19_flip") + js("h_c19_flip2") + js("h_c19_cut") + js("h_c19_edits", 0, 1, 2) + js("h_c19_all", range(0, 7))
        + js("h_c19_order", range(1, 5)) + js("h_c19_in_cert"),
        "thorough": js("h_c19_grouping", 5) + js("h_c19_order", 5, 6) + js("h_c19_all", 7, 8) + js("h_c19_text", 5) + js("h_c19_edits", 3),
    },
    "C20": {
        "quick": js("h_c20_all", range(0, 8)) + js("h_c20_inside", range(0, 9)) + js("h_c20_between", range(1, 6)) + js("h_c20_cut", 0, 1) + js("h_c20_cut_inside", 0, 1)
        + js("h_c20_flip", 0, 1) + js("h_c20_flip2", 0) + js("h_c20_edits", range(0, 5)) + js("h_c20_order", range(1, 4)) + js("h_c20_many", *lens(1100, 1)) + js("h_c20_stray", range(2, 6), 16, 18),
        "thorough": js("h_c20_inside", 9, 10) + js("h_c20_between", 6, 7) + js("h_c20_flip2", 1) + js("h_c20_many", 4000) + js("h_c20_all", 8, 9),
    },
    "C21": {
        "quick": js("h_c21_last") + js("h_c21_near") + js("h_c21_lengths") + js("h_c21_ids", range(0, 11)) + js("h_c21_critical", range(0, 4))
        + js("h_c21_unknown", *lens(70000), 1100000) + js("h_c21_known", range(0, 6)) + js("h_c21_flip", range(0, 7)) + js("h_c21_cut") + js("h_c21_edits", 0, 1, 2)
        + js("h_c21_all", range(0, 8)),
        "thorough": js("h_c21_ids", range(11, 14)) + js("h_c21_known", 6, 7) + js("h_c21_all", 8, 9, 10) + js("h_c21_edits", 3),
    },
    "C22": {
        "quick": js("h_c22_all", range(0, 8)) + js("h_c22_inside", range(0, 7)) + js("h_c22_flip") + js("h_c22_flip2") + js("h_c22_cut") + js("h_c22_edits", range(0, 4))
        + js("h_c22_around", range(0, 5)) + js("h_c22_critical") + js("h_c22_flags", range(0, 4)) + js("h_c22_long", *lens(9000, 3)),
        "thorough": js("h_c22_all", 8, 9, 10) + js("h_c22_inside", 7, 8) + js("h_c22_edits", 4) + js("h_c22_around", 5, 6),
    },
    "C23": {
        "quick": js("h_c23_all", range(0, 8)) + js("h_c23_inside", range(0, 7)) + js("h_c23_flip") + js("h_c23_flip2") + js("h_c23_cut") + js("h_c23_edits", range(0, 4))
        + js("h_c23_around", range(0, 5)) + js("h_c23_critical") + js("h_c23_path", range(0, 7)) + js("h_c23_elements", range(1, 5)),
        "thorough": js("h_c23_all", 8, 9, 10) + js("h_c23_inside", 7, 8) + js("h_c23_edits", 4) + js("h_c23_around", 5, 6),
    },
    "C24": {
        "quick": js("h_c24_all", range(0, 8)) + js("h_c24_inside", range(0, 7)) + js("h_c24_flip") + js("h_c24_flip2") + js("h_c24_cut") + js("h_c24_edits", range(0, 4))
        + js("h_c24_around", range(0, 5)) + js("h_c24_critical") + js("h_c24_tag", range(0, 5)) + js("h_c24_order", range(1, 5)) + js("h_c24_text", range(0, 6)) + js("h_c24_long", *lens(70000, 1)) + js("h_c24_ascii", *lens(70000)) + js("h_c24_runes", *lens(4100)) + js("h_c24_many", *lens(4100, 1), 70000),
        "thorough": js("h_c24_all", 8, 9, 10) + js("h_c24_inside", 7, 8) + js("h_c24_edits", 4) + js("h_c24_around", 5, 6),
    },
    "C25": {
        "quick": js("h_c25_all", range(0, 8)) + js("h_c25_inside", range(0, 7)) + js("h_c25_flip") + js("h_c25_flip2") + js("h_c25_cut") + js("h_c25_edits", range(0, 4))
        + js("h_c25_around", range(0, 5)) + js("h_c25_critical") + js("h_c25_purposes", range(0, 9)) + js("h_c25_near") + js("h_c25_ids", range(1, 15)) + js("h_c25_mapping", range(0, 13)) + js("h_c25_many", *lens(1100)),
        "thorough": js("h_c25_all", 8, 9, 10) + js("h_c25_inside", 7, 8) + js("h_c25_edits", 4) + js("h_c25_around", 5, 6),
    },
    "C26": {
        "quick": js("h_c26_all", range(0, 16)) + js("h_c26_inside", range(0, 12)) + js("h_c26_tag", range(0, 10)) + js("h_c26_flip", 0, 1) + js("h_c26_cut", 0, 1)
        + js("h_c26_edits", range(0, 8)) + js("h_c26_around", range(2, 8)) + js("h_c26_long", *lens(70000, 0, 2, 0), *lens(33000, 0, 2, 1)) + js("h_c26_twice", range(0, 8)) + js("h_c26_ascii", *lens(70000, 0, 2, 1)) + js("h_c26_runes", 40, 41, 130, 131, 601, 6000),
        "thorough": js("h_c26_all", range(16, 22)) + js("h_c26_inside", 12, 13, 14, 15) + js("h_c26_around", 8, 9, 10, 11),
    },
    "C27": {
        "quick": js("h_c27_flip", 0, 1, 2) + js("h_c27_edits", 0, 1, 2) + js("h_c27_names", range(0, 4)) + js("h_c27_blocks", 3, 5)
        + js("h_c27_contents", range(8, 15), range(24, 31), range(40, 47)) + js("h_c27_near", range(0, 7), range(8, 15)) + js("h_c27_usages", 1, 2, 3)
        + js("h_c27_given", 0, 1, 2, 16, 17, 40, 300, 10000) + js("h_c27_console_cert", 0, 1, 2) + js("h_c27_console_ext", range(0, 7))
        + js("h_c27_tool_all", 1, 2, 3) + js("h_c27_tool_nested", 1, 2) + js("h_c27_tool_flip") + js("h_c27_tool_cut") + js("h_c27_tool_edits", 0, 1),
        "thorough": js("h_c27_names", 4, 5) + js("h_c27_blocks", 6, 7) + js("h_c27_contents", range(16, 23), range(32, 39), range(48, 55)) + js("h_c27_tool_all", 4)
        + js("h_c27_given", 100, 1000),
    },
    "C28": {
        "quick": js("h_c28_all", range(0, 4)) + js("h_c28_long", 5, 12, 30, 100, 260, 300, 1000, 5000) + js("h_c28_near") + js("h_c28_near2") + js("h_c28_shift") + js("h_c28_ends")
        + js("h_c28_contents", 0, 1, 2) + js("h_c28_tail", range(0, 5)) + js("h_c28_last", range(1, 6)) + js("h_c28_flip") + js("h_c28_cut") + js("h_c28_distinct"),
        "thorough": js("h_c28_contents", 3),
    },
    "C29": {
        "quick": js("h_c29_flip", 0, 1) + js("h_c29_edits", range(0, 4)) + js("h_c29_head", 1, 2, 4, 8, 9, 20) + js("h_c29_times", range(0, 5)) + js("h_c29_keys", 1, 3, 17)
        + js("h_c29_components", range(0, 4)) + js("h_c29_component_text", 0, 1, 2) + js("h_c29_raw_name", 0, 1, 20)
        + js("h_c29_contents", *[k + 8 * n for k in range(0, 7) for n in range(1, 5)]) + js("h_c29_near", range(0, 7)) + js("h_c29_ext_edits", range(0, 7))
        + js("h_c29_usages", 1, 2) + js("h_c29_constraints", 1, 2, 3, 4) + js("h_c29_names", 1, 2) + js("h_c29_purposes", 1, 2, 3) + js("h_c29_ids", 1, 2)
        + js("h_c29_order") + js("h_c29_dumps", *lens(4100), 5000) + js("h_c29_given") + js("h_c29_console", 0, 1, 200, 3000) + js("h_c29_texts", 8, 16, 30, 41, 130, 131, 133, 301, 3001),
        "thorough": js("h_c29_edits", 4, 5) + js("h_c29_usages", 3) + js("h_c29_names", 3) + js("h_c29_purposes", 4) + js("h_c29_components", 4) + js("h_c29_component_text", 3)
        + js("h_c29_contents", *[k + 8 * n for k in range(0, 7) for n in (5, 6)]) + js("h_c29_ext_edits", range(8, 15)) + js("h_c29_dumps", 600),
    },
    "C30": {
        "quick": js("h_c30_der_all", range(0, 5)) + js("h_c30_certs_all", range(0, 5)) + js("h_c30_der_kinds", 1, 16, 17, 40) + js("h_c30_der_flip") + js("h_c30_der_cut")
        + js("h_c30_der_large", 4000, 9000, 70000) + js("h_c30_certs_large", 100, 9000, 70000) + js("h_c30_certs_fields") + js("h_c30_certs_cut", 140)
        + js("h_c30_mode_all", range(0, 9), 20) + js("h_c30_mode_near", range(0, 6)) + js("h_c30_count", range(0, 16)) + js("h_c30_unreadable", range(0, 4)) + js("h_c30_other_name", 0, 1)
        + js("h_c30_named", range(2, 8), 16) + js("h_c30_mode_octets", range(1, 6)) + js("h_c30_pieces", 0, 1, 2) + js("h_c30_pieces_large", 300, 9000, 20000) + js("h_c30_junk", 8, 9, 80, 81),
        "thorough": js("h_c30_pieces", 3) + js("h_c30_der_all", 5, 6) + js("h_c30_certs_all", 5, 6, 7) + js("h_c30_mode_all", *range(9, 20)),
    },
    "C31": {
        "quick": js("h_c31_all", range(0, 7)) + js("h_c31_header", range(0, 5)) + js("h_c31_claim", 0, 1, 2, 3, 4, 5, *range(8, 20)) + js("h_c31_flip", 0, 1)
        + js("h_c31_grow", *[16 * 3000 + k for k in range(0, 16)], 16 * 20000 + 11, 16 * 20000 + 12),
        "thorough": js("h_c31_all", 7, 8) + js("h_c31_claim", 6, 7) + js("h_c31_grow", *[16 * 12000 + k for k in (0, 3, 4, 6, 7, 8, 10)]),
    },
    "C32": {
        "quick": js("h_c32_all", range(0, 7)) + js("h_c32_flip", 0, 1) + js("h_c32_grow", *[16 * 3000 + k for k in range(0, 16)], 16 * 20000)
        + js("h_c32_bare", *[16 * n + k for k in range(0, 16) for n in (3000, 20000, 70000)]),
        "thorough": js("h_c32_all", 7, 8) + js("h_c32_grow", *[16 * 12000 + k for k in (0, 3, 4, 6, 7, 8, 10)]),
    },
    "C33": {
        "quick": js("h_c33_after", *[8 * n + k for n in (1, 3, 4) for k in range(0, 5)]) + js("h_c33_before", range(0, 6)) + js("h_c33_reuse", 0, 1) + js("h_c33_keep", 0, 1)
        + js("h_c33_two", 0) + js("h_c33_often", *[8 * 300 + k for k in range(0, 6)], 8 * 66000 + 6) + js("h_c33_reenter", range(0, 6)) + js("h_c33_aside", 0)
        + js("h_c33_pair", *[16 * n + k for n in (1, 2, 3) for k in range(0, 12)]) + js("h_c33_times", range(0, 7)) + js("h_c33_identifiers", *[4 * n + k for n in (2, 8, 9, 13, 17) for k in range(0, 4)]) + js("h_c33_alike", *[16 * n + k for n in (9, 20, 40, 300) for k in range(0, 12)]) + js("h_c33_pair_ext", *[8 * n + k for n in (1, 2, 3) for k in range(0, 7)])
        + js("h_c33_pair_name", 1) + js("h_c33_printers"),
        "thorough": js("h_c33_after", *[8 * 5 + k for k in range(0, 5)]) + js("h_c33_before", 6) + js("h_c33_reenter", 6) + js("h_c33_aside", 1),
    },
    "C34": {
        "quick": js("h_c34_all", range(0, 7)) + js("h_c34_kinds", *[16 * n + k for n in (1, 2, 3) for k in range(0, 13)]) + js("h_c34_sizes", 4, 5, 260, 261, 600, 601, 70000, 70001)
        + js("h_c34_lengths", range(1, 7)) + js("h_c34_flip") + js("h_c34_cut") + js("h_c34_wrong_field", 0, 1) + js("h_c34_wrong_inside", 0, 1)
        + js("h_c34_surplus", 0, 1) + js("h_c34_missing", 0, 1) + js("h_c34_version", range(1, 7)) + js("h_c34_malformed", 0, 1) + js("h_c34_names")
        + js("h_c34_extensions") + js("h_c34_envelope") + js("h_c34_whole_all", range(0, 24)) + js("h_c34_whole_flip", 0, 1) + js("h_c34_whole_cut", 0, 1)
        + js("h_c34_whole_edit", 0, 1) + js("h_c34_whole_body", *[8 * n + k for n in range(0, 5) for k in range(0, 6)]) + js("h_c34_whole_ext_flip", range(0, 6))
        + js("h_c34_whole_name_flip", 0, 1),
        "thorough": js("h_c34_all", 7, 8) + js("h_c34_kinds", *[16 * n + k for n in (4, 5) for k in range(0, 13)]) + js("h_c34_whole_all", range(24, 32)) + js("h_c34_whole_edit", 2) + js("h_c34_whole_body", *[8 * n + k for n in (5, 6) for k in range(0, 6)]),
    },
    "C35": {
        "quick": js("h_c35_all", range(0, 6)) + js("h_c35_kinds", *[16 * n + k for n in (0, 1, 2, 3) for k in range(0, 13)], 1 + 16 * 5) + js("h_c35_times", 0, 1)
        + js("h_c35_long", 1 + 16 * 300, 6 + 16 * 300, 5 + 16 * 130, 1 + 16 * 70000, 6 + 16 * 70000, 5 + 16 * 400) + js("h_c35_ids", range(0, 4)) + js("h_c35_flip") + js("h_c35_list_all", range(0, 5))
        + js("h_c35_list_flip") + js("h_c35_list_cut") + js("h_c35_list_bits", 0, 1, 15, 16, 17, 33, 100, 300, 1000, 70000) + js("h_c35_list_nest", 3, 10, 17, 33, 65, 129) + js("h_c35_list_many", *lens(300, 1), 513, 1025)
        + js("h_c35_texts", 8, 41, 130, 131, 133, 300, 301, 3001) + js("h_c35_list_texts", 8, 30, 41, 131, 133, 301, 3001),
        "thorough": js("h_c35_all", 6) + js("h_c35_list_all", 5, 6) + js("h_c35_list_bits", 600) + js("h_c35_list_nest", 300),
    },
    "C36": {
        "quick": js("h_c36_cross", *[8 * n + m for n in range(0, 3) for m in range(0, 3)]) + js("h_c36_pair", *[16 * n + k for n in (1, 2) for k in range(0, 15)], *[16 * n + k for n in (3, 4) for k in (1, 2, 3, 5, 6, 7, 8)])
        + js("h_c36_tags", range(0, 4)) + js("h_c36_long", *[16 * n + k for n in (*lens(80, 3), 128, 256, 300, 4096) for k in (1, 2, 3, 5, 6, 7, 8, 11, 14)])
        + js("h_c36_prefix", *[16 * n + k for n in (0, 1, 8, 17) for k in (1, 2, 3, 5, 6, 7, 8, 11, 14)])
        + js("h_c36_times", range(0, 7)) + js("h_c36_flip") + js("h_c36_values", range(0, 5)) + js("h_c36_instants") + js("h_c36_octets")
        + js("h_c36_arcs", *[8 * n + m for n in range(0, 5) for m in range(0, 5)], 6 * 8 + 6) + js("h_c36_errors", 9, 10, 17, 18, 3, 25),
        "thorough": js("h_c36_cross", 8 * 3 + 2) + js("h_c36_pair", *[16 * 3 + k for k in (11, 12, 13, 14)], *[16 * 5 + k for k in (1, 2, 3, 5, 6, 7, 8)]) + js("h_c36_errors", 26, 27) + js("h_c36_values", 5, 6),
    },
}

BOUNDS = {
    "C01": "every entry point on all inputs of up to 6 octets (8 thorough); extension contents of up to 5 arbitrary octets under every known identifier; the list of extensions of up to 6 arbitrary octets; elements of any identifier and length octet before 4 arbitrary octets; 2 arbitrary octets at both ends of contents of up to 130 octets of each type; length fields of up to 5 octets; two certificates with one arbitrary octet anywhere (the small one with two adjacent), cut anywhere, one structural edit anywhere; names with arbitrary attribute headers; nesting of 400 levels; large inputs of sixteen kinds (nested, many elements, long contents, many attributes, extensions, names, purposes) of 3000 and up to 70000 octets; texts of up to 1000 arbitrary ASCII characters and of characters of two to four octets at every offset, as every text of a certificate. Afterwards every accessor, iterator, Display, Debug (except of text, where it is core's own escaping) and Printable is applied to whatever came back.",
    "C02": "all byte strings of up to 7 octets (8, 9 thorough); all length octets around containers; element sizes up to 70000; 1500 elements side by side or nested; one arbitrary octet anywhere in, and every truncation of, a document with all element types; up to 4 arbitrary octets behind or before documents of up to 70000, at the top level or within; an octet no element begins with before up to 80 arbitrary ones; opaque contents of every length to 80 and around every power of two to 65536 (arbitrary throughout up to 400).",
    "C03": "all length fields of up to 6 octets before up to 1 content octet; correct lengths for sizes up to 16777216.",
    "C04": "every identifier octet, before contents of up to 4 octets and before valid contents of every type.",
    "C05": "all contents of up to 4 octets for both types, at top level, nested, as criticality, CA flag and parameters.",
    "C06": "all contents of up to 8 octets (20 for the walk), numbers of up to 4 octets, text of up to 4 octets exhaustively and up to 70000 with symbolic ends; lengths: every one to 80 and those around powers of two.",
    "C07": "all contents of up to 5 octets, up to 40 arbitrary octets, and up to 8200 octets with arbitrary ones at both ends, in the middle and around the 65536th bit.",
    "C08": "all contents of up to 6 octets; up to 70000 sub-identifiers (2000 and more with arbitrary ones at certain places).",
    "C09": "contents of up to 16 octets when the length is wrong; any two adjacent octets at any position of a valid time; every two-digit year times months 0..13 times any two day digits (UTCTime, and GeneralizedTime centuries 20; 17 more centuries thorough); 32 special years; all eight day and time digits on six months, both layouts.",
    "C10": "all contents of up to 5 octets, and a 4-octet symbolic window at any place in up to 130 octets, and at certain places (both ends, around powers of two) in up to 70000; text of up to 300 arbitrary ASCII characters and of up to 3000 octets in characters of two to four octets at every offset; lengths: every one to 80 and those around powers of two.",
    "C11": "all byte strings of up to 6 octets; two arbitrary octets in a document with every element type; nested shapes; 1025 elements side by side or nested.",
    "C12": "nesting of 64, 400 and 1500 levels of arbitrary container types (times 64 natively); 8 call frames of slack between callbacks, 48 for the deepest call in the walk (natively a stack of 128 KB).",
    "C13": "certificates assembled with every payload arbitrary at once (fields of 1 to 5 octets), every subset of optional fields, all kinds of parameters, every number of unused bits, long fields up to 70000 octets with symbolic ends, identifiers of up to 5 octets; two algorithms of up to 15 arcs, equal or differing in some; every text arbitrary ASCII (150 characters) or in characters of two to four octets (1000); lengths: every one to 80 and those around powers of two.",
    "C14": "to-be-signed contents of 127 to 65536 octets around each length form; one arbitrary octet anywhere in three certificates; every cut; one structural edit anywhere; arbitrary header octets.",
    "C15": "four certificates (106 to 350 octets): every cut (also with lengths adjusted), up to 3 arbitrary octets behind, one arbitrary octet anywhere, two adjacent ones anywhere in the small one, one octet more or less anywhere, one structural edit anywhere (remove, repeat, swap, replace by or insert an element of arbitrary identifier and up to 3 arbitrary content octets), stray octets at the end of every container; all inputs of up to 5 octets. Thorough: two edits, two octets at any two places; an octet no element begins with before up to 80 arbitrary ones.",
    "C16": "all wrapper contents of up to 7 octets, integers of up to 6 octets, any identifier octet, surplus elements, all combinations of optional fields.",
    "C17": "up to 3 trailing elements with arbitrary identifier octet, up to 4 in every order, unique ids of up to 5 arbitrary octets, all trailing fields of up to 6 octets.",
    "C18": "all 64-bit instants for the test; any time the clock may show; two arbitrary digits at each place of both times in both formats; one arbitrary octet anywhere; every cut; up to 3 elements of arbitrary type.",
    "C19": "up to 4 attributes in every order and grouping with arbitrary last arc, values of any type with up to 3 arbitrary octets, text of up to 4 arbitrary octets and up to 70000 with symbolic ends, 1000 other attributes between two of any kind, identifiers of up to 12 octets, also around the known prefix, one or two adjacent arbitrary octets anywhere in a name, every cut, one structural edit, all names of up to 6 octets; text of up to 300 arbitrary ASCII characters and of up to 3000 octets in characters of two to four octets; lengths: every one to 80 and those around powers of two.",
    "C20": "all blocks of up to 7 octets (8 inside the sequence), up to 5 arbitrary octets between two extensions, one or two adjacent arbitrary octets anywhere, every cut, one structural edit, up to 3 extensions of arbitrary kind and order, every number of extensions to 80 and around powers of two to 1026.",
    "C21": "all extensions of up to 7 octets, identifiers of up to 10 octets and every one-octet change of the known ones, any element of up to 3 octets as criticality, contents of up to 5 octets for known and 70000 (symbolic ends) for unknown identifiers, one arbitrary octet anywhere, every cut, one structural edit; lengths: every one to 80 and those around powers of two.",
    "C22": "all contents of up to 7 octets, bit strings of up to 6 arbitrary octets, up to 9000 octets with symbolic ends, one or two adjacent arbitrary octets, every cut, one structural edit, up to 4 arbitrary octets around; lengths: every one to 80 and those around powers of two.",
    "C23": "as C22; path lengths of up to 6 arbitrary octets; up to 4 elements of arbitrary type.",
    "C24": "as C22; every identifier octet before up to 4 arbitrary octets, up to 4 names of arbitrary kinds in any order, values of up to 5 arbitrary octets and up to 70000 with symbolic ends; every number of names to 80 and around powers of two to 4098, 70000; text of up to 300 arbitrary ASCII characters and of up to 3000 octets in characters of two to four octets; lengths: every one to 80 and those around powers of two.",
    "C25": "as C22; up to 8 purposes with arbitrary last octet, 1000 with arbitrary ones at certain places, every one-octet change of a known identifier, identifiers of up to 14 octets, the mapping over all identifiers of up to 12 arbitrary arcs.",
    "C26": "all contents of up to 7 octets, values of up to 5 arbitrary octets and up to 70000 with symbolic ends, every identifier octet, every cut, one arbitrary octet, one structural edit, up to 3 octets around; text of up to 300 arbitrary ASCII characters and of up to 3000 octets in characters of two to four octets; lengths: every one to 80 and those around powers of two.",
    "C27": "three certificates with one arbitrary octet or one structural edit anywhere; names, blocks and extension contents of up to 5 octets, of every kind; any usages in up to 3 octets; dumps of up to 300 arbitrary and 10000 octets; both printers (a recording one and the library's own, its console output captured through the modelled write call); the tool's own printer on all inputs of up to 3 octets, nested documents, every cut, one arbitrary octet, one structural edit.",
    "C28": "identifiers of up to 3 arbitrary 32-bit arcs and up to 260 with one arbitrary arc anywhere and 5000 with one at certain places; every known identifier with one or two arcs arbitrary, arcs shifted, cut or appended; all encoded contents of up to 2 octets and one octet or up to 5 behind the known prefixes arbitrary; pairs of identifiers with arbitrary arcs.",
    "C29": "as C27: two certificates with one arbitrary octet or one structural edit anywhere; serial numbers of 1 to 20 arbitrary octets; two arbitrary digits at each place of both times; names of up to 3 attributes of arbitrary kind; values of extensions of up to 4 arbitrary octets, all usages in 2 octets, numbers of up to 4 octets, up to 2 names (3 thorough) and 3 purposes of any kind; dumps of up to 300 arbitrary octets and 5000 partly arbitrary; instants over all 64-bit values; console output of lines of up to 9000 characters; texts of arbitrary ASCII or of characters of two to four octets (1500); lengths: every one to 80 and those around powers of two.",
    "C30": "both modes on all files of up to 4 octets; documents with every element type and up to 40 arbitrary octets; one arbitrary octet anywhere, every cut; files of up to 70000 octets; every mode word of up to 8 (20) ASCII characters and every word one edit away from a mode; 0 to 4 arguments; missing file, directory, every file name one character away; every file name of up to 3 octets (one of 8) and mode of up to 5, Unicode or not; a pipe in place of the file (no length, contents in up to three pieces split anywhere, 20000 octets); an octet no element begins with before up to 40 arbitrary ones.",
    "C31": "every entry point on all inputs of up to 6 octets; any identifier octet and length field of up to 4 octets at three depths; a length field of 1 to 4 arbitrary octets at any place of two certificates, a name and two extensions; one arbitrary octet anywhere in two certificates; sixteen kinds of input grown to 3000 octets and two to 20000. Bound: 16384 octets and 192 for each octet of input, and nothing kept.",
    "C32": "every entry point on all inputs of up to 6 octets; one arbitrary octet anywhere in two certificates; sixteen kinds of input grown to 3000 octets and one to 20000, with arbitrary octets at their ends; parsed only, all kinds to 70000. Bound: 50000 instructions and, for each octet, four to five times what the kind takes today (300 to 2500).",
    "C33": "one call with up to 4 arbitrary octets before every kind of document and after; a buffer changed and changed back between calls and two certificates with one arbitrary octet at any place; two elements, times, extensions or names of the same kind after each other with up to 3 arbitrary octets each; two identifiers of up to 17 arcs differing in one of any size, two elements of up to 300 octets differing in one; the same call repeated 300 times and 66000 times; walks from within callbacks up to 3 deep over up to 5 arbitrary octets; a print in the middle of a print.",
    "C34": "all inputs of up to 6 octets; each type before up to 3 arbitrary content octets; sizes up to 70000; length fields of up to 6 octets; one arbitrary octet anywhere in, and every cut of, documents with every type; any identifier octet in place of each field of two certificates and of their parts, one surplus or missing element at every place, versions of up to 6 octets, any field's contents malformed. Whole documents against a reference that says which defect comes first: certificates, tbs fields, names and extensions of up to 5 arbitrary octets, two certificates, every extension and a name with one arbitrary octet anywhere, cut anywhere, an arbitrary element inserted anywhere, each known extension's contents of up to 4 arbitrary octets.",
    "C35": "all inputs of up to 5 octets; each type with up to 3 arbitrary content octets (integers 5); two arbitrary digits at each place of times; texts and integers up to 70000, identifiers up to 400; the tool's listing of all inputs of up to 4 octets, one arbitrary octet anywhere and every cut of a document, bit strings of up to 300 arbitrary and 70000 partly arbitrary octets, nesting of 129 levels, 1025 elements; texts of arbitrary ASCII or of characters of two to four octets (1500).",
    "C36": "two elements of any two types with up to 2 arbitrary octets each; of the same type with up to 4; the same contents under any two identifier octets; contents of every length to 80 and up to 4096 that differ in one arbitrary octet; contents that begin alike and differ in length by up to 65; two times of either form with two arbitrary digits in one; every element of a document against every one of the same with one arbitrary octet anywhere; the accessors on values of every type made from up to 4 arbitrary octets; all pairs of 64-bit instants, of identifier octets and of identifiers of up to 4 arbitrary arcs; errors of two inputs of up to 5 octets together.",
}
ASSUME = {
    "*": [
        "memory allocation never fails; memory that was never written reads as zero",
        "the library is compiled as for release with overflow checks and debug assertions on and panic=abort (a panic is then a visible end of the path)",
        "core's Display for integers and two-digit UpperHex for octets are replaced by the harness's own digit loops (core itself is not under test)",
        "no concurrency: the code has none",
        "the time of day, should it be asked for, is arbitrary at every call; keys of hash tables are fixed",
        "nothing is said about inputs beyond the stated bounds",
    ],
    "C27": ["the operating system is a model: write accepts everything, one directory with one file, no interrupted or short reads"],
    "C29": ["the operating system is a model: write accepts everything"],
    "C32": ["work is counted in instructions of the compiled code, library routines for copying and comparing memory with one per octet"],
    "C35": ["the operating system is a model: one directory with one file, no interrupted or short reads, writes accept everything"],
    "C30": ["the operating system is a model: one directory with one file, no interrupted or short reads, writes accept everything"],
}
NOT_APPLICABLE = {}
