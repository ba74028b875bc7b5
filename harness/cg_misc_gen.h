// generated by props/C10.py
UN(neg_int, ND_NEG, 0, 0, 0, true)
UN(neg_int_plain, ND_NEG, 0, 0, 0, false)
UN(bitnot_int, ND_BITNOT, 0, 0, 0, true)
UN(bitnot_int_plain, ND_BITNOT, 0, 0, 0, false)
UN(pos_int, ND_POS, 0, 0, 0, true)
UN(neg_uint, ND_NEG, 1, 0, 0, true)
UN(neg_uint_plain, ND_NEG, 1, 0, 0, false)
UN(bitnot_uint, ND_BITNOT, 1, 0, 0, true)
UN(bitnot_uint_plain, ND_BITNOT, 1, 0, 0, false)
UN(pos_uint, ND_POS, 1, 0, 0, true)
UN(neg_long, ND_NEG, 2, 0, 0, true)
UN(neg_long_plain, ND_NEG, 2, 0, 0, false)
UN(bitnot_long, ND_BITNOT, 2, 0, 0, true)
UN(bitnot_long_plain, ND_BITNOT, 2, 0, 0, false)
UN(pos_long, ND_POS, 2, 0, 0, true)
UN(neg_ulong, ND_NEG, 3, 0, 0, true)
UN(neg_ulong_plain, ND_NEG, 3, 0, 0, false)
UN(bitnot_ulong, ND_BITNOT, 3, 0, 0, true)
UN(bitnot_ulong_plain, ND_BITNOT, 3, 0, 0, false)
UN(pos_ulong, ND_POS, 3, 0, 0, true)
UN(not_1, ND_NOT, 5, 0, 0, true)
UN(not_0, ND_NOT, 5, 0, 0, false)
CA(cast_bool_bool_plain, 5, 0, 5, false)
CA(cast_bool_bool_mem, 5, 2, 5, true)
CA(cast_bool_bool_opt, 5, 0, 5, true)
CA(cast_bool_char_plain, 6, 0, 5, false)
CA(cast_bool_char_mem, 6, 2, 5, true)
CA(cast_bool_char_opt, 6, 0, 5, true)
CA(cast_bool_uchar_plain, 7, 0, 5, false)
CA(cast_bool_uchar_mem, 7, 2, 5, true)
CA(cast_bool_uchar_opt, 7, 0, 5, true)
CA(cast_bool_short_plain, 8, 0, 5, false)
CA(cast_bool_short_mem, 8, 2, 5, true)
CA(cast_bool_short_opt, 8, 0, 5, true)
CA(cast_bool_ushort_plain, 9, 0, 5, false)
CA(cast_bool_ushort_mem, 9, 2, 5, true)
CA(cast_bool_ushort_opt, 9, 0, 5, true)
CA(cast_bool_int_plain, 0, 0, 5, false)
CA(cast_bool_int_mem, 0, 2, 5, true)
CA(cast_bool_int_opt, 0, 0, 5, true)
CA(cast_bool_uint_plain, 1, 0, 5, false)
CA(cast_bool_uint_mem, 1, 2, 5, true)
CA(cast_bool_uint_opt, 1, 0, 5, true)
CA(cast_bool_long_plain, 2, 0, 5, false)
CA(cast_bool_long_mem, 2, 2, 5, true)
CA(cast_bool_long_opt, 2, 0, 5, true)
CA(cast_bool_ulong_plain, 3, 0, 5, false)
CA(cast_bool_ulong_mem, 3, 2, 5, true)
CA(cast_bool_ulong_opt, 3, 0, 5, true)
CA(cast_bool_ptr_plain, 4, 0, 5, false)
CA(cast_bool_ptr_mem, 4, 2, 5, true)
CA(cast_bool_ptr_opt, 4, 0, 5, true)
LF(num_bool, 5, 1, true)
LF(num_bool_plain, 5, 1, false)
LF(var_bool, 5, 2, true)
LF(gvar_bool, 5, 3, true)
CA(cast_char_bool_plain, 5, 0, 6, false)
CA(cast_char_bool_mem, 5, 2, 6, true)
CA(cast_char_bool_opt, 5, 0, 6, true)
CA(cast_char_char_plain, 6, 0, 6, false)
CA(cast_char_char_mem, 6, 2, 6, true)
CA(cast_char_char_opt, 6, 0, 6, true)
CA(cast_char_uchar_plain, 7, 0, 6, false)
CA(cast_char_uchar_mem, 7, 2, 6, true)
CA(cast_char_uchar_opt, 7, 0, 6, true)
CA(cast_char_short_plain, 8, 0, 6, false)
CA(cast_char_short_mem, 8, 2, 6, true)
CA(cast_char_short_opt, 8, 0, 6, true)
CA(cast_char_ushort_plain, 9, 0, 6, false)
CA(cast_char_ushort_mem, 9, 2, 6, true)
CA(cast_char_ushort_opt, 9, 0, 6, true)
CA(cast_char_int_plain, 0, 0, 6, false)
CA(cast_char_int_mem, 0, 2, 6, true)
CA(cast_char_int_opt, 0, 0, 6, true)
CA(cast_char_uint_plain, 1, 0, 6, false)
CA(cast_char_uint_mem, 1, 2, 6, true)
CA(cast_char_uint_opt, 1, 0, 6, true)
CA(cast_char_long_plain, 2, 0, 6, false)
CA(cast_char_long_mem, 2, 2, 6, true)
CA(cast_char_long_opt, 2, 0, 6, true)
CA(cast_char_ulong_plain, 3, 0, 6, false)
CA(cast_char_ulong_mem, 3, 2, 6, true)
CA(cast_char_ulong_opt, 3, 0, 6, true)
CA(cast_char_ptr_plain, 4, 0, 6, false)
CA(cast_char_ptr_mem, 4, 2, 6, true)
CA(cast_char_ptr_opt, 4, 0, 6, true)
LF(num_char, 6, 1, true)
LF(num_char_plain, 6, 1, false)
LF(var_char, 6, 2, true)
LF(gvar_char, 6, 3, true)
CA(cast_uchar_bool_plain, 5, 0, 7, false)
CA(cast_uchar_bool_mem, 5, 2, 7, true)
CA(cast_uchar_bool_opt, 5, 0, 7, true)
CA(cast_uchar_char_plain, 6, 0, 7, false)
CA(cast_uchar_char_mem, 6, 2, 7, true)
CA(cast_uchar_char_opt, 6, 0, 7, true)
CA(cast_uchar_uchar_plain, 7, 0, 7, false)
CA(cast_uchar_uchar_mem, 7, 2, 7, true)
CA(cast_uchar_uchar_opt, 7, 0, 7, true)
CA(cast_uchar_short_plain, 8, 0, 7, false)
CA(cast_uchar_short_mem, 8, 2, 7, true)
CA(cast_uchar_short_opt, 8, 0, 7, true)
CA(cast_uchar_ushort_plain, 9, 0, 7, false)
CA(cast_uchar_ushort_mem, 9, 2, 7, true)
CA(cast_uchar_ushort_opt, 9, 0, 7, true)
CA(cast_uchar_int_plain, 0, 0, 7, false)
CA(cast_uchar_int_mem, 0, 2, 7, true)
CA(cast_uchar_int_opt, 0, 0, 7, true)
CA(cast_uchar_uint_plain, 1, 0, 7, false)
CA(cast_uchar_uint_mem, 1, 2, 7, true)
CA(cast_uchar_uint_opt, 1, 0, 7, true)
CA(cast_uchar_long_plain, 2, 0, 7, false)
CA(cast_uchar_long_mem, 2, 2, 7, true)
CA(cast_uchar_long_opt, 2, 0, 7, true)
CA(cast_uchar_ulong_plain, 3, 0, 7, false)
CA(cast_uchar_ulong_mem, 3, 2, 7, true)
CA(cast_uchar_ulong_opt, 3, 0, 7, true)
CA(cast_uchar_ptr_plain, 4, 0, 7, false)
CA(cast_uchar_ptr_mem, 4, 2, 7, true)
CA(cast_uchar_ptr_opt, 4, 0, 7, true)
LF(num_uchar, 7, 1, true)
LF(num_uchar_plain, 7, 1, false)
LF(var_uchar, 7, 2, true)
LF(gvar_uchar, 7, 3, true)
CA(cast_short_bool_plain, 5, 0, 8, false)
CA(cast_short_bool_mem, 5, 2, 8, true)
CA(cast_short_bool_opt, 5, 0, 8, true)
CA(cast_short_char_plain, 6, 0, 8, false)
CA(cast_short_char_mem, 6, 2, 8, true)
CA(cast_short_char_opt, 6, 0, 8, true)
CA(cast_short_uchar_plain, 7, 0, 8, false)
CA(cast_short_uchar_mem, 7, 2, 8, true)
CA(cast_short_uchar_opt, 7, 0, 8, true)
CA(cast_short_short_plain, 8, 0, 8, false)
CA(cast_short_short_mem, 8, 2, 8, true)
CA(cast_short_short_opt, 8, 0, 8, true)
CA(cast_short_ushort_plain, 9, 0, 8, false)
CA(cast_short_ushort_mem, 9, 2, 8, true)
CA(cast_short_ushort_opt, 9, 0, 8, true)
CA(cast_short_int_plain, 0, 0, 8, false)
CA(cast_short_int_mem, 0, 2, 8, true)
CA(cast_short_int_opt, 0, 0, 8, true)
CA(cast_short_uint_plain, 1, 0, 8, false)
CA(cast_short_uint_mem, 1, 2, 8, true)
CA(cast_short_uint_opt, 1, 0, 8, true)
CA(cast_short_long_plain, 2, 0, 8, false)
CA(cast_short_long_mem, 2, 2, 8, true)
CA(cast_short_long_opt, 2, 0, 8, true)
CA(cast_short_ulong_plain, 3, 0, 8, false)
CA(cast_short_ulong_mem, 3, 2, 8, true)
CA(cast_short_ulong_opt, 3, 0, 8, true)
CA(cast_short_ptr_plain, 4, 0, 8, false)
CA(cast_short_ptr_mem, 4, 2, 8, true)
CA(cast_short_ptr_opt, 4, 0, 8, true)
LF(num_short, 8, 1, true)
LF(num_short_plain, 8, 1, false)
LF(var_short, 8, 2, true)
LF(gvar_short, 8, 3, true)
CA(cast_ushort_bool_plain, 5, 0, 9, false)
CA(cast_ushort_bool_mem, 5, 2, 9, true)
CA(cast_ushort_bool_opt, 5, 0, 9, true)
CA(cast_ushort_char_plain, 6, 0, 9, false)
CA(cast_ushort_char_mem, 6, 2, 9, true)
CA(cast_ushort_char_opt, 6, 0, 9, true)
CA(cast_ushort_uchar_plain, 7, 0, 9, false)
CA(cast_ushort_uchar_mem, 7, 2, 9, true)
CA(cast_ushort_uchar_opt, 7, 0, 9, true)
CA(cast_ushort_short_plain, 8, 0, 9, false)
CA(cast_ushort_short_mem, 8, 2, 9, true)
CA(cast_ushort_short_opt, 8, 0, 9, true)
CA(cast_ushort_ushort_plain, 9, 0, 9, false)
CA(cast_ushort_ushort_mem, 9, 2, 9, true)
CA(cast_ushort_ushort_opt, 9, 0, 9, true)
CA(cast_ushort_int_plain, 0, 0, 9, false)
CA(cast_ushort_int_mem, 0, 2, 9, true)
CA(cast_ushort_int_opt, 0, 0, 9, true)
CA(cast_ushort_uint_plain, 1, 0, 9, false)
CA(cast_ushort_uint_mem, 1, 2, 9, true)
CA(cast_ushort_uint_opt, 1, 0, 9, true)
CA(cast_ushort_long_plain, 2, 0, 9, false)
CA(cast_ushort_long_mem, 2, 2, 9, true)
CA(cast_ushort_long_opt, 2, 0, 9, true)
CA(cast_ushort_ulong_plain, 3, 0, 9, false)
CA(cast_ushort_ulong_mem, 3, 2, 9, true)
CA(cast_ushort_ulong_opt, 3, 0, 9, true)
CA(cast_ushort_ptr_plain, 4, 0, 9, false)
CA(cast_ushort_ptr_mem, 4, 2, 9, true)
CA(cast_ushort_ptr_opt, 4, 0, 9, true)
LF(num_ushort, 9, 1, true)
LF(num_ushort_plain, 9, 1, false)
LF(var_ushort, 9, 2, true)
LF(gvar_ushort, 9, 3, true)
CA(cast_int_bool_plain, 5, 0, 0, false)
CA(cast_int_bool_mem, 5, 2, 0, true)
CA(cast_int_bool_opt, 5, 0, 0, true)
CA(cast_int_char_plain, 6, 0, 0, false)
CA(cast_int_char_mem, 6, 2, 0, true)
CA(cast_int_char_opt, 6, 0, 0, true)
CA(cast_int_uchar_plain, 7, 0, 0, false)
CA(cast_int_uchar_mem, 7, 2, 0, true)
CA(cast_int_uchar_opt, 7, 0, 0, true)
CA(cast_int_short_plain, 8, 0, 0, false)
CA(cast_int_short_mem, 8, 2, 0, true)
CA(cast_int_short_opt, 8, 0, 0, true)
CA(cast_int_ushort_plain, 9, 0, 0, false)
CA(cast_int_ushort_mem, 9, 2, 0, true)
CA(cast_int_ushort_opt, 9, 0, 0, true)
CA(cast_int_int_plain, 0, 0, 0, false)
CA(cast_int_int_mem, 0, 2, 0, true)
CA(cast_int_int_opt, 0, 0, 0, true)
CA(cast_int_uint_plain, 1, 0, 0, false)
CA(cast_int_uint_mem, 1, 2, 0, true)
CA(cast_int_uint_opt, 1, 0, 0, true)
CA(cast_int_long_plain, 2, 0, 0, false)
CA(cast_int_long_mem, 2, 2, 0, true)
CA(cast_int_long_opt, 2, 0, 0, true)
CA(cast_int_ulong_plain, 3, 0, 0, false)
CA(cast_int_ulong_mem, 3, 2, 0, true)
CA(cast_int_ulong_opt, 3, 0, 0, true)
CA(cast_int_ptr_plain, 4, 0, 0, false)
CA(cast_int_ptr_mem, 4, 2, 0, true)
CA(cast_int_ptr_opt, 4, 0, 0, true)
LF(num_int, 0, 1, true)
LF(num_int_plain, 0, 1, false)
LF(var_int, 0, 2, true)
LF(gvar_int, 0, 3, true)
CA(cast_uint_bool_plain, 5, 0, 1, false)
CA(cast_uint_bool_mem, 5, 2, 1, true)
CA(cast_uint_bool_opt, 5, 0, 1, true)
CA(cast_uint_char_plain, 6, 0, 1, false)
CA(cast_uint_char_mem, 6, 2, 1, true)
CA(cast_uint_char_opt, 6, 0, 1, true)
CA(cast_uint_uchar_plain, 7, 0, 1, false)
CA(cast_uint_uchar_mem, 7, 2, 1, true)
CA(cast_uint_uchar_opt, 7, 0, 1, true)
CA(cast_uint_short_plain, 8, 0, 1, false)
CA(cast_uint_short_mem, 8, 2, 1, true)
CA(cast_uint_short_opt, 8, 0, 1, true)
CA(cast_uint_ushort_plain, 9, 0, 1, false)
CA(cast_uint_ushort_mem, 9, 2, 1, true)
CA(cast_uint_ushort_opt, 9, 0, 1, true)
CA(cast_uint_int_plain, 0, 0, 1, false)
CA(cast_uint_int_mem, 0, 2, 1, true)
CA(cast_uint_int_opt, 0, 0, 1, true)
CA(cast_uint_uint_plain, 1, 0, 1, false)
CA(cast_uint_uint_mem, 1, 2, 1, true)
CA(cast_uint_uint_opt, 1, 0, 1, true)
CA(cast_uint_long_plain, 2, 0, 1, false)
CA(cast_uint_long_mem, 2, 2, 1, true)
CA(cast_uint_long_opt, 2, 0, 1, true)
CA(cast_uint_ulong_plain, 3, 0, 1, false)
CA(cast_uint_ulong_mem, 3, 2, 1, true)
CA(cast_uint_ulong_opt, 3, 0, 1, true)
CA(cast_uint_ptr_plain, 4, 0, 1, false)
CA(cast_uint_ptr_mem, 4, 2, 1, true)
CA(cast_uint_ptr_opt, 4, 0, 1, true)
LF(num_uint, 1, 1, true)
LF(num_uint_plain, 1, 1, false)
LF(var_uint, 1, 2, true)
LF(gvar_uint, 1, 3, true)
CA(cast_long_bool_plain, 5, 0, 2, false)
CA(cast_long_bool_mem, 5, 2, 2, true)
CA(cast_long_bool_opt, 5, 0, 2, true)
CA(cast_long_char_plain, 6, 0, 2, false)
CA(cast_long_char_mem, 6, 2, 2, true)
CA(cast_long_char_opt, 6, 0, 2, true)
CA(cast_long_uchar_plain, 7, 0, 2, false)
CA(cast_long_uchar_mem, 7, 2, 2, true)
CA(cast_long_uchar_opt, 7, 0, 2, true)
CA(cast_long_short_plain, 8, 0, 2, false)
CA(cast_long_short_mem, 8, 2, 2, true)
CA(cast_long_short_opt, 8, 0, 2, true)
CA(cast_long_ushort_plain, 9, 0, 2, false)
CA(cast_long_ushort_mem, 9, 2, 2, true)
CA(cast_long_ushort_opt, 9, 0, 2, true)
CA(cast_long_int_plain, 0, 0, 2, false)
CA(cast_long_int_mem, 0, 2, 2, true)
CA(cast_long_int_opt, 0, 0, 2, true)
CA(cast_long_uint_plain, 1, 0, 2, false)
CA(cast_long_uint_mem, 1, 2, 2, true)
CA(cast_long_uint_opt, 1, 0, 2, true)
CA(cast_long_long_plain, 2, 0, 2, false)
CA(cast_long_long_mem, 2, 2, 2, true)
CA(cast_long_long_opt, 2, 0, 2, true)
CA(cast_long_ulong_plain, 3, 0, 2, false)
CA(cast_long_ulong_mem, 3, 2, 2, true)
CA(cast_long_ulong_opt, 3, 0, 2, true)
CA(cast_long_ptr_plain, 4, 0, 2, false)
CA(cast_long_ptr_mem, 4, 2, 2, true)
CA(cast_long_ptr_opt, 4, 0, 2, true)
LF(num_long, 2, 1, true)
LF(num_long_plain, 2, 1, false)
LF(var_long, 2, 2, true)
LF(gvar_long, 2, 3, true)
CA(cast_ulong_bool_plain, 5, 0, 3, false)
CA(cast_ulong_bool_mem, 5, 2, 3, true)
CA(cast_ulong_bool_opt, 5, 0, 3, true)
CA(cast_ulong_char_plain, 6, 0, 3, false)
CA(cast_ulong_char_mem, 6, 2, 3, true)
CA(cast_ulong_char_opt, 6, 0, 3, true)
CA(cast_ulong_uchar_plain, 7, 0, 3, false)
CA(cast_ulong_uchar_mem, 7, 2, 3, true)
CA(cast_ulong_uchar_opt, 7, 0, 3, true)
CA(cast_ulong_short_plain, 8, 0, 3, false)
CA(cast_ulong_short_mem, 8, 2, 3, true)
CA(cast_ulong_short_opt, 8, 0, 3, true)
CA(cast_ulong_ushort_plain, 9, 0, 3, false)
CA(cast_ulong_ushort_mem, 9, 2, 3, true)
CA(cast_ulong_ushort_opt, 9, 0, 3, true)
CA(cast_ulong_int_plain, 0, 0, 3, false)
CA(cast_ulong_int_mem, 0, 2, 3, true)
CA(cast_ulong_int_opt, 0, 0, 3, true)
CA(cast_ulong_uint_plain, 1, 0, 3, false)
CA(cast_ulong_uint_mem, 1, 2, 3, true)
CA(cast_ulong_uint_opt, 1, 0, 3, true)
CA(cast_ulong_long_plain, 2, 0, 3, false)
CA(cast_ulong_long_mem, 2, 2, 3, true)
CA(cast_ulong_long_opt, 2, 0, 3, true)
CA(cast_ulong_ulong_plain, 3, 0, 3, false)
CA(cast_ulong_ulong_mem, 3, 2, 3, true)
CA(cast_ulong_ulong_opt, 3, 0, 3, true)
CA(cast_ulong_ptr_plain, 4, 0, 3, false)
CA(cast_ulong_ptr_mem, 4, 2, 3, true)
CA(cast_ulong_ptr_opt, 4, 0, 3, true)
LF(num_ulong, 3, 1, true)
LF(num_ulong_plain, 3, 1, false)
LF(var_ulong, 3, 2, true)
LF(gvar_ulong, 3, 3, true)
CA(cast_ptr_bool_plain, 5, 0, 4, false)
CA(cast_ptr_bool_mem, 5, 2, 4, true)
CA(cast_ptr_bool_opt, 5, 0, 4, true)
CA(cast_ptr_char_plain, 6, 0, 4, false)
CA(cast_ptr_char_mem, 6, 2, 4, true)
CA(cast_ptr_char_opt, 6, 0, 4, true)
CA(cast_ptr_uchar_plain, 7, 0, 4, false)
CA(cast_ptr_uchar_mem, 7, 2, 4, true)
CA(cast_ptr_uchar_opt, 7, 0, 4, true)
CA(cast_ptr_short_plain, 8, 0, 4, false)
CA(cast_ptr_short_mem, 8, 2, 4, true)
CA(cast_ptr_short_opt, 8, 0, 4, true)
CA(cast_ptr_ushort_plain, 9, 0, 4, false)
CA(cast_ptr_ushort_mem, 9, 2, 4, true)
CA(cast_ptr_ushort_opt, 9, 0, 4, true)
CA(cast_ptr_int_plain, 0, 0, 4, false)
CA(cast_ptr_int_mem, 0, 2, 4, true)
CA(cast_ptr_int_opt, 0, 0, 4, true)
CA(cast_ptr_uint_plain, 1, 0, 4, false)
CA(cast_ptr_uint_mem, 1, 2, 4, true)
CA(cast_ptr_uint_opt, 1, 0, 4, true)
CA(cast_ptr_long_plain, 2, 0, 4, false)
CA(cast_ptr_long_mem, 2, 2, 4, true)
CA(cast_ptr_long_opt, 2, 0, 4, true)
CA(cast_ptr_ulong_plain, 3, 0, 4, false)
CA(cast_ptr_ulong_mem, 3, 2, 4, true)
CA(cast_ptr_ulong_opt, 3, 0, 4, true)
CA(cast_ptr_ptr_plain, 4, 0, 4, false)
CA(cast_ptr_ptr_mem, 4, 2, 4, true)
CA(cast_ptr_ptr_opt, 4, 0, 4, true)
LF(num_ptr, 4, 1, true)
LF(num_ptr_plain, 4, 1, false)
LF(var_ptr, 4, 2, true)
LF(gvar_ptr, 4, 3, true)
CO(trunc_add_int_on, ND_ADD, 0, 2, 0, 0, 1, 0)
CO(trunc_add_int_ol, ND_ADD, 0, 2, 0, 0, 2, 0)
CO(trunc_add_int_okshort, ND_ADD, 0, 2, 0, 0, 5, 8)
CO(trunc_add_int_okint, ND_ADD, 0, 2, 0, 0, 5, 0)
CO(trunc_add_int_okuchar, ND_ADD, 0, 2, 0, 0, 5, 7)
CO(trunc_add_uint_on, ND_ADD, 1, 2, 0, 0, 1, 0)
CO(trunc_add_uint_ol, ND_ADD, 1, 2, 0, 0, 2, 0)
CO(trunc_add_uint_okshort, ND_ADD, 1, 2, 0, 0, 5, 8)
CO(trunc_add_uint_okint, ND_ADD, 1, 2, 0, 0, 5, 0)
CO(trunc_add_uint_okuchar, ND_ADD, 1, 2, 0, 0, 5, 7)
CO(trunc_sub_int_on, ND_SUB, 0, 2, 0, 0, 1, 0)
CO(trunc_sub_int_ol, ND_SUB, 0, 2, 0, 0, 2, 0)
CO(trunc_sub_int_okshort, ND_SUB, 0, 2, 0, 0, 5, 8)
CO(trunc_sub_int_okint, ND_SUB, 0, 2, 0, 0, 5, 0)
CO(trunc_sub_int_okuchar, ND_SUB, 0, 2, 0, 0, 5, 7)
CO(trunc_sub_uint_on, ND_SUB, 1, 2, 0, 0, 1, 0)
CO(trunc_sub_uint_ol, ND_SUB, 1, 2, 0, 0, 2, 0)
CO(trunc_sub_uint_okshort, ND_SUB, 1, 2, 0, 0, 5, 8)
CO(trunc_sub_uint_okint, ND_SUB, 1, 2, 0, 0, 5, 0)
CO(trunc_sub_uint_okuchar, ND_SUB, 1, 2, 0, 0, 5, 7)
CO(trunc_mul_int_on, ND_MUL, 0, 2, 0, 0, 1, 0)
CO(trunc_mul_int_ol, ND_MUL, 0, 2, 0, 0, 2, 0)
CO(trunc_mul_int_okshort, ND_MUL, 0, 2, 0, 0, 5, 8)
CO(trunc_mul_int_okint, ND_MUL, 0, 2, 0, 0, 5, 0)
CO(trunc_mul_int_okuchar, ND_MUL, 0, 2, 0, 0, 5, 7)
CO(trunc_mul_uint_on, ND_MUL, 1, 2, 0, 0, 1, 0)
CO(trunc_mul_uint_ol, ND_MUL, 1, 2, 0, 0, 2, 0)
CO(trunc_mul_uint_okshort, ND_MUL, 1, 2, 0, 0, 5, 8)
CO(trunc_mul_uint_okint, ND_MUL, 1, 2, 0, 0, 5, 0)
CO(trunc_mul_uint_okuchar, ND_MUL, 1, 2, 0, 0, 5, 7)
CO(trunc_bitand_int_on, ND_BITAND, 0, 2, 0, 0, 1, 0)
CO(trunc_bitand_int_ol, ND_BITAND, 0, 2, 0, 0, 2, 0)
CO(trunc_bitand_int_okshort, ND_BITAND, 0, 2, 0, 0, 5, 8)
CO(trunc_bitand_int_okint, ND_BITAND, 0, 2, 0, 0, 5, 0)
CO(trunc_bitand_int_okuchar, ND_BITAND, 0, 2, 0, 0, 5, 7)
CO(trunc_bitand_uint_on, ND_BITAND, 1, 2, 0, 0, 1, 0)
CO(trunc_bitand_uint_ol, ND_BITAND, 1, 2, 0, 0, 2, 0)
CO(trunc_bitand_uint_okshort, ND_BITAND, 1, 2, 0, 0, 5, 8)
CO(trunc_bitand_uint_okint, ND_BITAND, 1, 2, 0, 0, 5, 0)
CO(trunc_bitand_uint_okuchar, ND_BITAND, 1, 2, 0, 0, 5, 7)
CO(trunc_bitxor_int_on, ND_BITXOR, 0, 2, 0, 0, 1, 0)
CO(trunc_bitxor_int_ol, ND_BITXOR, 0, 2, 0, 0, 2, 0)
CO(trunc_bitxor_int_okshort, ND_BITXOR, 0, 2, 0, 0, 5, 8)
CO(trunc_bitxor_int_okint, ND_BITXOR, 0, 2, 0, 0, 5, 0)
CO(trunc_bitxor_int_okuchar, ND_BITXOR, 0, 2, 0, 0, 5, 7)
CO(trunc_bitxor_uint_on, ND_BITXOR, 1, 2, 0, 0, 1, 0)
CO(trunc_bitxor_uint_ol, ND_BITXOR, 1, 2, 0, 0, 2, 0)
CO(trunc_bitxor_uint_okshort, ND_BITXOR, 1, 2, 0, 0, 5, 8)
CO(trunc_bitxor_uint_okint, ND_BITXOR, 1, 2, 0, 0, 5, 0)
CO(trunc_bitxor_uint_okuchar, ND_BITXOR, 1, 2, 0, 0, 5, 7)
CD(cond_int, 0, true, 0)
CD(cond_int_plain, 0, false, 0)
CM(comma_int, ND_COMMA, 0, true)
CM(chain_int, ND_CHAIN, 0, false)
CD(cond_ulong, 3, true, 0)
CD(cond_ulong_plain, 3, false, 0)
CM(comma_ulong, ND_COMMA, 3, true)
CM(chain_ulong, ND_CHAIN, 3, false)
CD(cond_ptr, 4, true, 0)
CD(cond_ptr_plain, 4, false, 0)
CM(comma_ptr, ND_COMMA, 4, true)
CM(chain_ptr, ND_CHAIN, 4, false)
CD(cond_short, 8, true, 0)
CD(cond_short_plain, 8, false, 0)
CM(comma_short, ND_COMMA, 8, true)
CM(chain_short, ND_CHAIN, 8, false)
CD(cond_const, 0, true, 1)
LG(logand, ND_LOGAND, true, 0)
LG(logand_plain, ND_LOGAND, false, 0)
LG(not_logand, ND_LOGAND, true, 1)
LG(logor, ND_LOGOR, true, 0)
LG(logor_plain, ND_LOGOR, false, 0)
LG(not_logor, ND_LOGOR, true, 1)
CH(not_eq, X_CMP, ND_EQ, 0, 100, -1, -1)
CH(notnot_eq, X_CMP, ND_EQ, 3, 100, 100, -1)
CH(cast_not_eq, X_CMP, ND_EQ, 2, 100, 2, -1)
CH(not_cast_eq, X_CMP, ND_EQ, 1, 2, 100, -1)
CH(not_ne, X_CMP, ND_NE, 0, 100, -1, -1)
CH(notnot_ne, X_CMP, ND_NE, 3, 100, 100, -1)
CH(cast_not_ne, X_CMP, ND_NE, 2, 100, 2, -1)
CH(not_cast_ne, X_CMP, ND_NE, 1, 2, 100, -1)
CH(not_lt, X_CMP, ND_LT, 0, 100, -1, -1)
CH(notnot_lt, X_CMP, ND_LT, 3, 100, 100, -1)
CH(cast_not_lt, X_CMP, ND_LT, 2, 100, 2, -1)
CH(not_cast_lt, X_CMP, ND_LT, 1, 2, 100, -1)
CH(not_le, X_CMP, ND_LE, 0, 100, -1, -1)
CH(notnot_le, X_CMP, ND_LE, 3, 100, 100, -1)
CH(cast_not_le, X_CMP, ND_LE, 2, 100, 2, -1)
CH(not_cast_le, X_CMP, ND_LE, 1, 2, 100, -1)
CH(not_gt, X_CMP, ND_GT, 0, 100, -1, -1)
CH(notnot_gt, X_CMP, ND_GT, 3, 100, 100, -1)
CH(cast_not_gt, X_CMP, ND_GT, 2, 100, 2, -1)
CH(not_cast_gt, X_CMP, ND_GT, 1, 2, 100, -1)
CH(not_ge, X_CMP, ND_GE, 0, 100, -1, -1)
CH(notnot_ge, X_CMP, ND_GE, 3, 100, 100, -1)
CH(cast_not_ge, X_CMP, ND_GE, 2, 100, 2, -1)
CH(not_cast_ge, X_CMP, ND_GE, 1, 2, 100, -1)
CH(not_int_int, X_INT, 0, 0, 100, -1, -1)
CH(notnot_int_int, X_INT, 0, 0, 100, 100, -1)
CH(notcast_int_int, X_INT, 0, 0, 100, 6, 100)
CH(bool_int_int, X_BCAST, 0, 0, 0, -1, -1)
CH(bool_int_long_int, X_BCAST, 0, 0, 2, 100, -1)
CH(not_int_long, X_INT, 0, 2, 100, -1, -1)
CH(notnot_int_long, X_INT, 0, 2, 100, 100, -1)
CH(notcast_int_long, X_INT, 0, 2, 100, 6, 100)
CH(bool_int_long, X_BCAST, 0, 2, 0, -1, -1)
CH(bool_int_long_long, X_BCAST, 0, 2, 2, 100, -1)
CH(not_int_uchar, X_INT, 0, 7, 100, -1, -1)
CH(notnot_int_uchar, X_INT, 0, 7, 100, 100, -1)
CH(notcast_int_uchar, X_INT, 0, 7, 100, 6, 100)
CH(bool_int_uchar, X_BCAST, 0, 7, 0, -1, -1)
CH(bool_int_long_uchar, X_BCAST, 0, 7, 2, 100, -1)
CH(not_int_ptr, X_INT, 0, 4, 100, -1, -1)
CH(notnot_int_ptr, X_INT, 0, 4, 100, 100, -1)
CH(notcast_int_ptr, X_INT, 0, 4, 100, 6, 100)
CH(bool_int_ptr, X_BCAST, 0, 4, 0, -1, -1)
CH(bool_int_long_ptr, X_BCAST, 0, 4, 2, 100, -1)
CH(not_bool, X_BOOL, 0, 5, 100, -1, -1)
CH(cast_not_bool, X_BOOL, 0, 5, 100, 3, -1)
CH(notcast_bool, X_BOOL, 0, 5, 8, 100, 3)
