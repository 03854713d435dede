package zzh

// Code generated by tools/mkreg.py; DO NOT EDIT.

var Harnesses = map[string]func(){
	"H_C01_bytes":      H_C01_bytes,
	"H_C01_edges":      H_C01_edges,
	"H_C01_hole":       H_C01_hole,
	"H_C01_many":       H_C01_many,
	"H_C01_mutate":     H_C01_mutate,
	"H_C01_sized":      H_C01_sized,
	"H_C01_truncate":   H_C01_truncate,
	"H_C01_window":     H_C01_window,
	"H_C02_bytes":      H_C02_bytes,
	"H_C02_hole":       H_C02_hole,
	"H_C02_mutate":     H_C02_mutate,
	"H_C02_sized":      H_C02_sized,
	"H_C02_small":      H_C02_small,
	"H_C02_truncate":   H_C02_truncate,
	"H_C03_bytes":      H_C03_bytes,
	"H_C03_hole":       H_C03_hole,
	"H_C03_mutate":     H_C03_mutate,
	"H_C03_sized":      H_C03_sized,
	"H_C03_small":      H_C03_small,
	"H_C04_hole":       H_C04_hole,
	"H_C04_mutate":     H_C04_mutate,
	"H_C04_sized":      H_C04_sized,
	"H_C04_small":      H_C04_small,
	"H_C05_long":       H_C05_long,
	"H_C05_many":       H_C05_many,
	"H_C05_names":      H_C05_names,
	"H_C05_next":       H_C05_next,
	"H_C05_powers":     H_C05_powers,
	"H_C05_prefixed":   H_C05_prefixed,
	"H_C06_hole":       H_C06_hole,
	"H_C06_long":       H_C06_long,
	"H_C06_many":       H_C06_many,
	"H_C06_mutate":     H_C06_mutate,
	"H_C06_prefixes":   H_C06_prefixes,
	"H_C06_reuse":      H_C06_reuse,
	"H_C07_bind":       H_C07_bind,
	"H_C07_clash":      H_C07_clash,
	"H_C07_order":      H_C07_order,
	"H_C07_refs":       H_C07_refs,
	"H_C07_reserved":   H_C07_reserved,
	"H_C07_urls":       H_C07_urls,
	"H_C08_mutate":     H_C08_mutate,
	"H_C08_names":      H_C08_names,
	"H_C08_order":      H_C08_order,
	"H_C08_parts":      H_C08_parts,
	"H_C08_remove":     H_C08_remove,
	"H_C08_space":      H_C08_space,
	"H_C09_any":        H_C09_any,
	"H_C09_around":     H_C09_around,
	"H_C09_long":       H_C09_long,
	"H_C09_names":      H_C09_names,
	"H_C09_nowhere":    H_C09_nowhere,
	"H_C09_value":      H_C09_value,
	"H_C10_beyond_mb":  H_C10_beyond_mb,
	"H_C10_deep":       H_C10_deep,
	"H_C10_depth":      H_C10_depth,
	"H_C10_lengths":    H_C10_lengths,
	"H_C10_levels":     H_C10_levels,
	"H_C10_names":      H_C10_names,
	"H_C10_prefixes":   H_C10_prefixes,
	"H_C10_token_mb":   H_C10_token_mb,
	"H_C11_neighbours": H_C11_neighbours,
	"H_C11_record_mb":  H_C11_record_mb,
	"H_C11_several_mb": H_C11_several_mb,
	"H_C11_short":      H_C11_short,
	"H_C12_bytes":      H_C12_bytes,
	"H_C12_cut":        H_C12_cut,
	"H_C12_declared":   H_C12_declared,
	"H_C12_hole":       H_C12_hole,
	"H_C12_mutate":     H_C12_mutate,
	"H_C12_rest":       H_C12_rest,
	"H_C12_sizes":      H_C12_sizes,
	"H_C13_bytes":      H_C13_bytes,
	"H_C13_hole":       H_C13_hole,
	"H_C13_mutate":     H_C13_mutate,
	"H_C13_window":     H_C13_window,
	"H_C14_bytes":      H_C14_bytes,
	"H_C14_everything": H_C14_everything,
	"H_C14_far":        H_C14_far,
	"H_C14_hole":       H_C14_hole,
	"H_C14_mutate":     H_C14_mutate,
	"H_C15_deep":       H_C15_deep,
	"H_C15_many":       H_C15_many,
	"H_C15_mutate":     H_C15_mutate,
	"H_C15_pages":      H_C15_pages,
	"H_C15_slots":      H_C15_slots,
	"H_C16_pages":      H_C16_pages,
	"H_C16_single":     H_C16_single,
	"H_C16_three":      H_C16_three,
	"H_C17_all":        H_C17_all,
	"H_C17_back":       H_C17_back,
	"H_C17_many":       H_C17_many,
	"H_C17_moves":      H_C17_moves,
	"H_C17_slots":      H_C17_slots,
	"H_C18_between":    H_C18_between,
	"H_C18_moves":      H_C18_moves,
	"H_C18_then":       H_C18_then,
	"H_C19_lengths":    H_C19_lengths,
	"H_C19_parsed":     H_C19_parsed,
	"H_C19_ranges":     H_C19_ranges,
	"H_C19_tokens":     H_C19_tokens,
	"H_C20_lengths":    H_C20_lengths,
	"H_C20_parsed":     H_C20_parsed,
	"H_C20_ranges":     H_C20_ranges,
	"H_C20_refs":       H_C20_refs,
	"H_C20_tokens":     H_C20_tokens,
	"H_C21_index":      H_C21_index,
	"H_C21_parsed":     H_C21_parsed,
	"H_C21_range":      H_C21_range,
	"H_C21_records":    H_C21_records,
	"H_C22_default":    H_C22_default,
	"H_C22_exps":       H_C22_exps,
	"H_C22_ops":        H_C22_ops,
	"H_C23_cut":        H_C23_cut,
	"H_C23_default":    H_C23_default,
	"H_C23_ops":        H_C23_ops,
	"H_C24_halves":     H_C24_halves,
	"H_C25_all":        H_C25_all,
	"H_C26_any":        H_C26_any,
	"H_C26_fill_mb":    H_C26_fill_mb,
	"H_C27_look":       H_C27_look,
	"H_C27_mix":        H_C27_mix,
	"H_C27_read":       H_C27_read,
	"H_C27_seq":        H_C27_seq,
	"H_C27_set":        H_C27_set,
	"H_C27_skip":       H_C27_skip,
	"H_C28_all":        H_C28_all,
	"H_C28_twice":      H_C28_twice,
	"H_C29_bytes":      H_C29_bytes,
	"H_C29_large":      H_C29_large,
	"H_C29_nav":        H_C29_nav,
	"H_C29_parser":     H_C29_parser,
	"H_C29_reader":     H_C29_reader,
	"H_C29_whole":      H_C29_whole,
	"H_C30_encoding":   H_C30_encoding,
	"H_C30_nav":        H_C30_nav,
	"H_C30_parsed":     H_C30_parsed,
	"H_C31_args":       H_C31_args,
	"H_C31_chain":      H_C31_chain,
	"H_C31_kinds":      H_C31_kinds,
	"H_C31_mutate":     H_C31_mutate,
	"H_C31_parse":      H_C31_parse,
	"H_C32_bytes":      H_C32_bytes,
	"H_C32_char":       H_C32_char,
	"H_C32_cut":        H_C32_cut,
	"H_C32_end":        H_C32_end,
	"H_C32_names":      H_C32_names,
	"H_C32_string":     H_C32_string,
	"H_C32_utf16":      H_C32_utf16,
	"H_C33_bytes":      H_C33_bytes,
	"H_C33_hole":       H_C33_hole,
	"H_C33_mutate":     H_C33_mutate,
	"H_C33_sized":      H_C33_sized,
	"H_C33_truncate":   H_C33_truncate,
	"H_C33_window":     H_C33_window,
	"H_C34_again":      H_C34_again,
	"H_C34_read":       H_C34_read,
	"H_C34_two":        H_C34_two,
	"H_C35_bytes":      H_C35_bytes,
	"H_C35_deep":       H_C35_deep,
	"H_C35_hole":       H_C35_hole,
	"H_C35_mutate":     H_C35_mutate,
	"H_C35_sized":      H_C35_sized,
	"H_C35_sizes":      H_C35_sizes,
	"H_C35_slots":      H_C35_slots,
	"H_C35_small":      H_C35_small,
	"H_C36_bytes":      H_C36_bytes,
	"H_C36_hole":       H_C36_hole,
	"H_C36_mutate":     H_C36_mutate,
	"H_C36_sized":      H_C36_sized,
	"H_C36_small":      H_C36_small,
	"H_C36_window":     H_C36_window,
}
