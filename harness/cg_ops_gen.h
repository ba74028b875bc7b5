// generated by props/C10.py
B(add_int_plain, ND_ADD, 0, 0, 0, 0, 0, 0, 0)
B(add_int_on, ND_ADD, 0, 0, 0, 0, 1, 0, 1)
B(add_int_no, ND_ADD, 0, 0, 1, 0, 0, 0, 1)
B(add_int_oo, ND_ADD, 0, 0, 0, 0, 0, 0, 1)
B(add_int_lo, ND_ADD, 0, 0, 2, 0, 0, 0, 1)
B(add_int_ol, ND_ADD, 0, 0, 0, 0, 2, 0, 1)
B(add_int_ln, ND_ADD, 0, 0, 2, 0, 1, 0, 1)
B(add_int_nl, ND_ADD, 0, 0, 1, 0, 2, 0, 1)
B(add_int_go, ND_ADD, 0, 0, 3, 0, 0, 0, 1)
B(add_int_og, ND_ADD, 0, 0, 0, 0, 3, 0, 1)
B(add_int_ok_long, ND_ADD, 0, 0, 0, 0, 5, 2, 1)
B(add_int_ko_long, ND_ADD, 0, 0, 5, 2, 0, 0, 1)
B(add_int_ok_short, ND_ADD, 0, 0, 0, 0, 5, 8, 1)
B(add_int_ko_short, ND_ADD, 0, 0, 5, 8, 0, 0, 1)
B(add_int_ok_uchar, ND_ADD, 0, 0, 0, 0, 5, 7, 1)
B(add_int_ko_uchar, ND_ADD, 0, 0, 5, 7, 0, 0, 1)
B(add_int_ok_bool, ND_ADD, 0, 0, 0, 0, 5, 5, 1)
B(add_int_ko_bool, ND_ADD, 0, 0, 5, 5, 0, 0, 1)
B(add_int_ok_uint, ND_ADD, 0, 0, 0, 0, 5, 1, 1)
B(add_int_ko_uint, ND_ADD, 0, 0, 5, 1, 0, 0, 1)
B(add_uint_plain, ND_ADD, 1, 1, 0, 0, 0, 0, 0)
B(add_uint_on, ND_ADD, 1, 1, 0, 0, 1, 0, 1)
B(add_uint_no, ND_ADD, 1, 1, 1, 0, 0, 0, 1)
B(add_uint_oo, ND_ADD, 1, 1, 0, 0, 0, 0, 1)
B(add_uint_lo, ND_ADD, 1, 1, 2, 0, 0, 0, 1)
B(add_uint_ol, ND_ADD, 1, 1, 0, 0, 2, 0, 1)
B(add_uint_ln, ND_ADD, 1, 1, 2, 0, 1, 0, 1)
B(add_uint_nl, ND_ADD, 1, 1, 1, 0, 2, 0, 1)
B(add_uint_go, ND_ADD, 1, 1, 3, 0, 0, 0, 1)
B(add_uint_og, ND_ADD, 1, 1, 0, 0, 3, 0, 1)
B(add_uint_ok_long, ND_ADD, 1, 1, 0, 0, 5, 2, 1)
B(add_uint_ko_long, ND_ADD, 1, 1, 5, 2, 0, 0, 1)
B(add_uint_ok_short, ND_ADD, 1, 1, 0, 0, 5, 8, 1)
B(add_uint_ko_short, ND_ADD, 1, 1, 5, 8, 0, 0, 1)
B(add_uint_ok_uchar, ND_ADD, 1, 1, 0, 0, 5, 7, 1)
B(add_uint_ko_uchar, ND_ADD, 1, 1, 5, 7, 0, 0, 1)
B(add_uint_ok_bool, ND_ADD, 1, 1, 0, 0, 5, 5, 1)
B(add_uint_ko_bool, ND_ADD, 1, 1, 5, 5, 0, 0, 1)
B(add_uint_ok_int, ND_ADD, 1, 1, 0, 0, 5, 0, 1)
B(add_uint_ko_int, ND_ADD, 1, 1, 5, 0, 0, 0, 1)
B(add_long_plain, ND_ADD, 2, 2, 0, 0, 0, 0, 0)
B(add_long_on, ND_ADD, 2, 2, 0, 0, 1, 0, 1)
B(add_long_no, ND_ADD, 2, 2, 1, 0, 0, 0, 1)
B(add_long_oo, ND_ADD, 2, 2, 0, 0, 0, 0, 1)
B(add_long_lo, ND_ADD, 2, 2, 2, 0, 0, 0, 1)
B(add_long_ol, ND_ADD, 2, 2, 0, 0, 2, 0, 1)
B(add_long_ln, ND_ADD, 2, 2, 2, 0, 1, 0, 1)
B(add_long_nl, ND_ADD, 2, 2, 1, 0, 2, 0, 1)
B(add_long_go, ND_ADD, 2, 2, 3, 0, 0, 0, 1)
B(add_long_og, ND_ADD, 2, 2, 0, 0, 3, 0, 1)
B(add_long_ok_int, ND_ADD, 2, 2, 0, 0, 5, 0, 1)
B(add_long_ko_int, ND_ADD, 2, 2, 5, 0, 0, 0, 1)
B(add_long_ok_uint, ND_ADD, 2, 2, 0, 0, 5, 1, 1)
B(add_long_ko_uint, ND_ADD, 2, 2, 5, 1, 0, 0, 1)
B(add_long_ok_short, ND_ADD, 2, 2, 0, 0, 5, 8, 1)
B(add_long_ko_short, ND_ADD, 2, 2, 5, 8, 0, 0, 1)
B(add_long_ok_uchar, ND_ADD, 2, 2, 0, 0, 5, 7, 1)
B(add_long_ko_uchar, ND_ADD, 2, 2, 5, 7, 0, 0, 1)
B(add_long_ok_bool, ND_ADD, 2, 2, 0, 0, 5, 5, 1)
B(add_long_ko_bool, ND_ADD, 2, 2, 5, 5, 0, 0, 1)
B(add_long_ok_ulong, ND_ADD, 2, 2, 0, 0, 5, 3, 1)
B(add_long_ko_ulong, ND_ADD, 2, 2, 5, 3, 0, 0, 1)
B(add_ulong_plain, ND_ADD, 3, 3, 0, 0, 0, 0, 0)
B(add_ulong_on, ND_ADD, 3, 3, 0, 0, 1, 0, 1)
B(add_ulong_no, ND_ADD, 3, 3, 1, 0, 0, 0, 1)
B(add_ulong_oo, ND_ADD, 3, 3, 0, 0, 0, 0, 1)
B(add_ulong_lo, ND_ADD, 3, 3, 2, 0, 0, 0, 1)
B(add_ulong_ol, ND_ADD, 3, 3, 0, 0, 2, 0, 1)
B(add_ulong_ln, ND_ADD, 3, 3, 2, 0, 1, 0, 1)
B(add_ulong_nl, ND_ADD, 3, 3, 1, 0, 2, 0, 1)
B(add_ulong_go, ND_ADD, 3, 3, 3, 0, 0, 0, 1)
B(add_ulong_og, ND_ADD, 3, 3, 0, 0, 3, 0, 1)
B(add_ulong_ok_int, ND_ADD, 3, 3, 0, 0, 5, 0, 1)
B(add_ulong_ko_int, ND_ADD, 3, 3, 5, 0, 0, 0, 1)
B(add_ulong_ok_uint, ND_ADD, 3, 3, 0, 0, 5, 1, 1)
B(add_ulong_ko_uint, ND_ADD, 3, 3, 5, 1, 0, 0, 1)
B(add_ulong_ok_short, ND_ADD, 3, 3, 0, 0, 5, 8, 1)
B(add_ulong_ko_short, ND_ADD, 3, 3, 5, 8, 0, 0, 1)
B(add_ulong_ok_uchar, ND_ADD, 3, 3, 0, 0, 5, 7, 1)
B(add_ulong_ko_uchar, ND_ADD, 3, 3, 5, 7, 0, 0, 1)
B(add_ulong_ok_bool, ND_ADD, 3, 3, 0, 0, 5, 5, 1)
B(add_ulong_ko_bool, ND_ADD, 3, 3, 5, 5, 0, 0, 1)
B(add_ulong_ok_long, ND_ADD, 3, 3, 0, 0, 5, 2, 1)
B(add_ulong_ko_long, ND_ADD, 3, 3, 5, 2, 0, 0, 1)
B(sub_int_plain, ND_SUB, 0, 0, 0, 0, 0, 0, 0)
B(sub_int_on, ND_SUB, 0, 0, 0, 0, 1, 0, 1)
B(sub_int_no, ND_SUB, 0, 0, 1, 0, 0, 0, 1)
B(sub_int_oo, ND_SUB, 0, 0, 0, 0, 0, 0, 1)
B(sub_int_lo, ND_SUB, 0, 0, 2, 0, 0, 0, 1)
B(sub_int_ol, ND_SUB, 0, 0, 0, 0, 2, 0, 1)
B(sub_int_ln, ND_SUB, 0, 0, 2, 0, 1, 0, 1)
B(sub_int_nl, ND_SUB, 0, 0, 1, 0, 2, 0, 1)
B(sub_int_go, ND_SUB, 0, 0, 3, 0, 0, 0, 1)
B(sub_int_og, ND_SUB, 0, 0, 0, 0, 3, 0, 1)
B(sub_int_ok_long, ND_SUB, 0, 0, 0, 0, 5, 2, 1)
B(sub_int_ko_long, ND_SUB, 0, 0, 5, 2, 0, 0, 1)
B(sub_int_ok_short, ND_SUB, 0, 0, 0, 0, 5, 8, 1)
B(sub_int_ko_short, ND_SUB, 0, 0, 5, 8, 0, 0, 1)
B(sub_int_ok_uchar, ND_SUB, 0, 0, 0, 0, 5, 7, 1)
B(sub_int_ko_uchar, ND_SUB, 0, 0, 5, 7, 0, 0, 1)
B(sub_int_ok_bool, ND_SUB, 0, 0, 0, 0, 5, 5, 1)
B(sub_int_ko_bool, ND_SUB, 0, 0, 5, 5, 0, 0, 1)
B(sub_int_ok_uint, ND_SUB, 0, 0, 0, 0, 5, 1, 1)
B(sub_int_ko_uint, ND_SUB, 0, 0, 5, 1, 0, 0, 1)
B(sub_uint_plain, ND_SUB, 1, 1, 0, 0, 0, 0, 0)
B(sub_uint_on, ND_SUB, 1, 1, 0, 0, 1, 0, 1)
B(sub_uint_no, ND_SUB, 1, 1, 1, 0, 0, 0, 1)
B(sub_uint_oo, ND_SUB, 1, 1, 0, 0, 0, 0, 1)
B(sub_uint_lo, ND_SUB, 1, 1, 2, 0, 0, 0, 1)
B(sub_uint_ol, ND_SUB, 1, 1, 0, 0, 2, 0, 1)
B(sub_uint_ln, ND_SUB, 1, 1, 2, 0, 1, 0, 1)
B(sub_uint_nl, ND_SUB, 1, 1, 1, 0, 2, 0, 1)
B(sub_uint_go, ND_SUB, 1, 1, 3, 0, 0, 0, 1)
B(sub_uint_og, ND_SUB, 1, 1, 0, 0, 3, 0, 1)
B(sub_uint_ok_long, ND_SUB, 1, 1, 0, 0, 5, 2, 1)
B(sub_uint_ko_long, ND_SUB, 1, 1, 5, 2, 0, 0, 1)
B(sub_uint_ok_short, ND_SUB, 1, 1, 0, 0, 5, 8, 1)
B(sub_uint_ko_short, ND_SUB, 1, 1, 5, 8, 0, 0, 1)
B(sub_uint_ok_uchar, ND_SUB, 1, 1, 0, 0, 5, 7, 1)
B(sub_uint_ko_uchar, ND_SUB, 1, 1, 5, 7, 0, 0, 1)
B(sub_uint_ok_bool, ND_SUB, 1, 1, 0, 0, 5, 5, 1)
B(sub_uint_ko_bool, ND_SUB, 1, 1, 5, 5, 0, 0, 1)
B(sub_uint_ok_int, ND_SUB, 1, 1, 0, 0, 5, 0, 1)
B(sub_uint_ko_int, ND_SUB, 1, 1, 5, 0, 0, 0, 1)
B(sub_long_plain, ND_SUB, 2, 2, 0, 0, 0, 0, 0)
B(sub_long_on, ND_SUB, 2, 2, 0, 0, 1, 0, 1)
B(sub_long_no, ND_SUB, 2, 2, 1, 0, 0, 0, 1)
B(sub_long_oo, ND_SUB, 2, 2, 0, 0, 0, 0, 1)
B(sub_long_lo, ND_SUB, 2, 2, 2, 0, 0, 0, 1)
B(sub_long_ol, ND_SUB, 2, 2, 0, 0, 2, 0, 1)
B(sub_long_ln, ND_SUB, 2, 2, 2, 0, 1, 0, 1)
B(sub_long_nl, ND_SUB, 2, 2, 1, 0, 2, 0, 1)
B(sub_long_go, ND_SUB, 2, 2, 3, 0, 0, 0, 1)
B(sub_long_og, ND_SUB, 2, 2, 0, 0, 3, 0, 1)
B(sub_long_ok_int, ND_SUB, 2, 2, 0, 0, 5, 0, 1)
B(sub_long_ko_int, ND_SUB, 2, 2, 5, 0, 0, 0, 1)
B(sub_long_ok_uint, ND_SUB, 2, 2, 0, 0, 5, 1, 1)
B(sub_long_ko_uint, ND_SUB, 2, 2, 5, 1, 0, 0, 1)
B(sub_long_ok_short, ND_SUB, 2, 2, 0, 0, 5, 8, 1)
B(sub_long_ko_short, ND_SUB, 2, 2, 5, 8, 0, 0, 1)
B(sub_long_ok_uchar, ND_SUB, 2, 2, 0, 0, 5, 7, 1)
B(sub_long_ko_uchar, ND_SUB, 2, 2, 5, 7, 0, 0, 1)
B(sub_long_ok_bool, ND_SUB, 2, 2, 0, 0, 5, 5, 1)
B(sub_long_ko_bool, ND_SUB, 2, 2, 5, 5, 0, 0, 1)
B(sub_long_ok_ulong, ND_SUB, 2, 2, 0, 0, 5, 3, 1)
B(sub_long_ko_ulong, ND_SUB, 2, 2, 5, 3, 0, 0, 1)
B(sub_ulong_plain, ND_SUB, 3, 3, 0, 0, 0, 0, 0)
B(sub_ulong_on, ND_SUB, 3, 3, 0, 0, 1, 0, 1)
B(sub_ulong_no, ND_SUB, 3, 3, 1, 0, 0, 0, 1)
B(sub_ulong_oo, ND_SUB, 3, 3, 0, 0, 0, 0, 1)
B(sub_ulong_lo, ND_SUB, 3, 3, 2, 0, 0, 0, 1)
B(sub_ulong_ol, ND_SUB, 3, 3, 0, 0, 2, 0, 1)
B(sub_ulong_ln, ND_SUB, 3, 3, 2, 0, 1, 0, 1)
B(sub_ulong_nl, ND_SUB, 3, 3, 1, 0, 2, 0, 1)
B(sub_ulong_go, ND_SUB, 3, 3, 3, 0, 0, 0, 1)
B(sub_ulong_og, ND_SUB, 3, 3, 0, 0, 3, 0, 1)
B(sub_ulong_ok_int, ND_SUB, 3, 3, 0, 0, 5, 0, 1)
B(sub_ulong_ko_int, ND_SUB, 3, 3, 5, 0, 0, 0, 1)
B(sub_ulong_ok_uint, ND_SUB, 3, 3, 0, 0, 5, 1, 1)
B(sub_ulong_ko_uint, ND_SUB, 3, 3, 5, 1, 0, 0, 1)
B(sub_ulong_ok_short, ND_SUB, 3, 3, 0, 0, 5, 8, 1)
B(sub_ulong_ko_short, ND_SUB, 3, 3, 5, 8, 0, 0, 1)
B(sub_ulong_ok_uchar, ND_SUB, 3, 3, 0, 0, 5, 7, 1)
B(sub_ulong_ko_uchar, ND_SUB, 3, 3, 5, 7, 0, 0, 1)
B(sub_ulong_ok_bool, ND_SUB, 3, 3, 0, 0, 5, 5, 1)
B(sub_ulong_ko_bool, ND_SUB, 3, 3, 5, 5, 0, 0, 1)
B(sub_ulong_ok_long, ND_SUB, 3, 3, 0, 0, 5, 2, 1)
B(sub_ulong_ko_long, ND_SUB, 3, 3, 5, 2, 0, 0, 1)
B(mul_int_plain, ND_MUL, 0, 0, 0, 0, 0, 0, 0)
B(mul_int_on, ND_MUL, 0, 0, 0, 0, 1, 0, 1)
B(mul_int_no, ND_MUL, 0, 0, 1, 0, 0, 0, 1)
B(mul_int_oo, ND_MUL, 0, 0, 0, 0, 0, 0, 1)
B(mul_int_lo, ND_MUL, 0, 0, 2, 0, 0, 0, 1)
B(mul_int_ol, ND_MUL, 0, 0, 0, 0, 2, 0, 1)
B(mul_int_ln, ND_MUL, 0, 0, 2, 0, 1, 0, 1)
B(mul_int_nl, ND_MUL, 0, 0, 1, 0, 2, 0, 1)
B(mul_int_go, ND_MUL, 0, 0, 3, 0, 0, 0, 1)
B(mul_int_og, ND_MUL, 0, 0, 0, 0, 3, 0, 1)
B(mul_int_ok_long, ND_MUL, 0, 0, 0, 0, 5, 2, 1)
B(mul_int_ko_long, ND_MUL, 0, 0, 5, 2, 0, 0, 1)
B(mul_int_ok_short, ND_MUL, 0, 0, 0, 0, 5, 8, 1)
B(mul_int_ko_short, ND_MUL, 0, 0, 5, 8, 0, 0, 1)
B(mul_int_ok_uchar, ND_MUL, 0, 0, 0, 0, 5, 7, 1)
B(mul_int_ko_uchar, ND_MUL, 0, 0, 5, 7, 0, 0, 1)
B(mul_int_ok_bool, ND_MUL, 0, 0, 0, 0, 5, 5, 1)
B(mul_int_ko_bool, ND_MUL, 0, 0, 5, 5, 0, 0, 1)
B(mul_int_ok_uint, ND_MUL, 0, 0, 0, 0, 5, 1, 1)
B(mul_int_ko_uint, ND_MUL, 0, 0, 5, 1, 0, 0, 1)
B(mul_uint_plain, ND_MUL, 1, 1, 0, 0, 0, 0, 0)
B(mul_uint_on, ND_MUL, 1, 1, 0, 0, 1, 0, 1)
B(mul_uint_no, ND_MUL, 1, 1, 1, 0, 0, 0, 1)
B(mul_uint_oo, ND_MUL, 1, 1, 0, 0, 0, 0, 1)
B(mul_uint_lo, ND_MUL, 1, 1, 2, 0, 0, 0, 1)
B(mul_uint_ol, ND_MUL, 1, 1, 0, 0, 2, 0, 1)
B(mul_uint_ln, ND_MUL, 1, 1, 2, 0, 1, 0, 1)
B(mul_uint_nl, ND_MUL, 1, 1, 1, 0, 2, 0, 1)
B(mul_uint_go, ND_MUL, 1, 1, 3, 0, 0, 0, 1)
B(mul_uint_og, ND_MUL, 1, 1, 0, 0, 3, 0, 1)
B(mul_uint_ok_long, ND_MUL, 1, 1, 0, 0, 5, 2, 1)
B(mul_uint_ko_long, ND_MUL, 1, 1, 5, 2, 0, 0, 1)
B(mul_uint_ok_short, ND_MUL, 1, 1, 0, 0, 5, 8, 1)
B(mul_uint_ko_short, ND_MUL, 1, 1, 5, 8, 0, 0, 1)
B(mul_uint_ok_uchar, ND_MUL, 1, 1, 0, 0, 5, 7, 1)
B(mul_uint_ko_uchar, ND_MUL, 1, 1, 5, 7, 0, 0, 1)
B(mul_uint_ok_bool, ND_MUL, 1, 1, 0, 0, 5, 5, 1)
B(mul_uint_ko_bool, ND_MUL, 1, 1, 5, 5, 0, 0, 1)
B(mul_uint_ok_int, ND_MUL, 1, 1, 0, 0, 5, 0, 1)
B(mul_uint_ko_int, ND_MUL, 1, 1, 5, 0, 0, 0, 1)
B(mul_long_plain, ND_MUL, 2, 2, 0, 0, 0, 0, 0)
B(mul_long_on, ND_MUL, 2, 2, 0, 0, 1, 0, 1)
B(mul_long_no, ND_MUL, 2, 2, 1, 0, 0, 0, 1)
B(mul_long_oo, ND_MUL, 2, 2, 0, 0, 0, 0, 1)
B(mul_long_lo, ND_MUL, 2, 2, 2, 0, 0, 0, 1)
B(mul_long_ol, ND_MUL, 2, 2, 0, 0, 2, 0, 1)
B(mul_long_ln, ND_MUL, 2, 2, 2, 0, 1, 0, 1)
B(mul_long_nl, ND_MUL, 2, 2, 1, 0, 2, 0, 1)
B(mul_long_go, ND_MUL, 2, 2, 3, 0, 0, 0, 1)
B(mul_long_og, ND_MUL, 2, 2, 0, 0, 3, 0, 1)
B(mul_long_ok_int, ND_MUL, 2, 2, 0, 0, 5, 0, 1)
B(mul_long_ko_int, ND_MUL, 2, 2, 5, 0, 0, 0, 1)
B(mul_long_ok_uint, ND_MUL, 2, 2, 0, 0, 5, 1, 1)
B(mul_long_ko_uint, ND_MUL, 2, 2, 5, 1, 0, 0, 1)
B(mul_long_ok_short, ND_MUL, 2, 2, 0, 0, 5, 8, 1)
B(mul_long_ko_short, ND_MUL, 2, 2, 5, 8, 0, 0, 1)
B(mul_long_ok_uchar, ND_MUL, 2, 2, 0, 0, 5, 7, 1)
B(mul_long_ko_uchar, ND_MUL, 2, 2, 5, 7, 0, 0, 1)
B(mul_long_ok_bool, ND_MUL, 2, 2, 0, 0, 5, 5, 1)
B(mul_long_ko_bool, ND_MUL, 2, 2, 5, 5, 0, 0, 1)
B(mul_long_ok_ulong, ND_MUL, 2, 2, 0, 0, 5, 3, 1)
B(mul_long_ko_ulong, ND_MUL, 2, 2, 5, 3, 0, 0, 1)
B(mul_ulong_plain, ND_MUL, 3, 3, 0, 0, 0, 0, 0)
B(mul_ulong_on, ND_MUL, 3, 3, 0, 0, 1, 0, 1)
B(mul_ulong_no, ND_MUL, 3, 3, 1, 0, 0, 0, 1)
B(mul_ulong_oo, ND_MUL, 3, 3, 0, 0, 0, 0, 1)
B(mul_ulong_lo, ND_MUL, 3, 3, 2, 0, 0, 0, 1)
B(mul_ulong_ol, ND_MUL, 3, 3, 0, 0, 2, 0, 1)
B(mul_ulong_ln, ND_MUL, 3, 3, 2, 0, 1, 0, 1)
B(mul_ulong_nl, ND_MUL, 3, 3, 1, 0, 2, 0, 1)
B(mul_ulong_go, ND_MUL, 3, 3, 3, 0, 0, 0, 1)
B(mul_ulong_og, ND_MUL, 3, 3, 0, 0, 3, 0, 1)
B(mul_ulong_ok_int, ND_MUL, 3, 3, 0, 0, 5, 0, 1)
B(mul_ulong_ko_int, ND_MUL, 3, 3, 5, 0, 0, 0, 1)
B(mul_ulong_ok_uint, ND_MUL, 3, 3, 0, 0, 5, 1, 1)
B(mul_ulong_ko_uint, ND_MUL, 3, 3, 5, 1, 0, 0, 1)
B(mul_ulong_ok_short, ND_MUL, 3, 3, 0, 0, 5, 8, 1)
B(mul_ulong_ko_short, ND_MUL, 3, 3, 5, 8, 0, 0, 1)
B(mul_ulong_ok_uchar, ND_MUL, 3, 3, 0, 0, 5, 7, 1)
B(mul_ulong_ko_uchar, ND_MUL, 3, 3, 5, 7, 0, 0, 1)
B(mul_ulong_ok_bool, ND_MUL, 3, 3, 0, 0, 5, 5, 1)
B(mul_ulong_ko_bool, ND_MUL, 3, 3, 5, 5, 0, 0, 1)
B(mul_ulong_ok_long, ND_MUL, 3, 3, 0, 0, 5, 2, 1)
B(mul_ulong_ko_long, ND_MUL, 3, 3, 5, 2, 0, 0, 1)
B(bitand_int_plain, ND_BITAND, 0, 0, 0, 0, 0, 0, 0)
B(bitand_int_on, ND_BITAND, 0, 0, 0, 0, 1, 0, 1)
B(bitand_int_no, ND_BITAND, 0, 0, 1, 0, 0, 0, 1)
B(bitand_int_oo, ND_BITAND, 0, 0, 0, 0, 0, 0, 1)
B(bitand_int_lo, ND_BITAND, 0, 0, 2, 0, 0, 0, 1)
B(bitand_int_ol, ND_BITAND, 0, 0, 0, 0, 2, 0, 1)
B(bitand_int_ln, ND_BITAND, 0, 0, 2, 0, 1, 0, 1)
B(bitand_int_nl, ND_BITAND, 0, 0, 1, 0, 2, 0, 1)
B(bitand_int_go, ND_BITAND, 0, 0, 3, 0, 0, 0, 1)
B(bitand_int_og, ND_BITAND, 0, 0, 0, 0, 3, 0, 1)
B(bitand_int_ok_long, ND_BITAND, 0, 0, 0, 0, 5, 2, 1)
B(bitand_int_ko_long, ND_BITAND, 0, 0, 5, 2, 0, 0, 1)
B(bitand_int_ok_short, ND_BITAND, 0, 0, 0, 0, 5, 8, 1)
B(bitand_int_ko_short, ND_BITAND, 0, 0, 5, 8, 0, 0, 1)
B(bitand_int_ok_uchar, ND_BITAND, 0, 0, 0, 0, 5, 7, 1)
B(bitand_int_ko_uchar, ND_BITAND, 0, 0, 5, 7, 0, 0, 1)
B(bitand_int_ok_bool, ND_BITAND, 0, 0, 0, 0, 5, 5, 1)
B(bitand_int_ko_bool, ND_BITAND, 0, 0, 5, 5, 0, 0, 1)
B(bitand_int_ok_uint, ND_BITAND, 0, 0, 0, 0, 5, 1, 1)
B(bitand_int_ko_uint, ND_BITAND, 0, 0, 5, 1, 0, 0, 1)
B(bitand_uint_plain, ND_BITAND, 1, 1, 0, 0, 0, 0, 0)
B(bitand_uint_on, ND_BITAND, 1, 1, 0, 0, 1, 0, 1)
B(bitand_uint_no, ND_BITAND, 1, 1, 1, 0, 0, 0, 1)
B(bitand_uint_oo, ND_BITAND, 1, 1, 0, 0, 0, 0, 1)
B(bitand_uint_lo, ND_BITAND, 1, 1, 2, 0, 0, 0, 1)
B(bitand_uint_ol, ND_BITAND, 1, 1, 0, 0, 2, 0, 1)
B(bitand_uint_ln, ND_BITAND, 1, 1, 2, 0, 1, 0, 1)
B(bitand_uint_nl, ND_BITAND, 1, 1, 1, 0, 2, 0, 1)
B(bitand_uint_go, ND_BITAND, 1, 1, 3, 0, 0, 0, 1)
B(bitand_uint_og, ND_BITAND, 1, 1, 0, 0, 3, 0, 1)
B(bitand_uint_ok_long, ND_BITAND, 1, 1, 0, 0, 5, 2, 1)
B(bitand_uint_ko_long, ND_BITAND, 1, 1, 5, 2, 0, 0, 1)
B(bitand_uint_ok_short, ND_BITAND, 1, 1, 0, 0, 5, 8, 1)
B(bitand_uint_ko_short, ND_BITAND, 1, 1, 5, 8, 0, 0, 1)
B(bitand_uint_ok_uchar, ND_BITAND, 1, 1, 0, 0, 5, 7, 1)
B(bitand_uint_ko_uchar, ND_BITAND, 1, 1, 5, 7, 0, 0, 1)
B(bitand_uint_ok_bool, ND_BITAND, 1, 1, 0, 0, 5, 5, 1)
B(bitand_uint_ko_bool, ND_BITAND, 1, 1, 5, 5, 0, 0, 1)
B(bitand_uint_ok_int, ND_BITAND, 1, 1, 0, 0, 5, 0, 1)
B(bitand_uint_ko_int, ND_BITAND, 1, 1, 5, 0, 0, 0, 1)
B(bitand_long_plain, ND_BITAND, 2, 2, 0, 0, 0, 0, 0)
B(bitand_long_on, ND_BITAND, 2, 2, 0, 0, 1, 0, 1)
B(bitand_long_no, ND_BITAND, 2, 2, 1, 0, 0, 0, 1)
B(bitand_long_oo, ND_BITAND, 2, 2, 0, 0, 0, 0, 1)
B(bitand_long_lo, ND_BITAND, 2, 2, 2, 0, 0, 0, 1)
B(bitand_long_ol, ND_BITAND, 2, 2, 0, 0, 2, 0, 1)
B(bitand_long_ln, ND_BITAND, 2, 2, 2, 0, 1, 0, 1)
B(bitand_long_nl, ND_BITAND, 2, 2, 1, 0, 2, 0, 1)
B(bitand_long_go, ND_BITAND, 2, 2, 3, 0, 0, 0, 1)
B(bitand_long_og, ND_BITAND, 2, 2, 0, 0, 3, 0, 1)
B(bitand_long_ok_int, ND_BITAND, 2, 2, 0, 0, 5, 0, 1)
B(bitand_long_ko_int, ND_BITAND, 2, 2, 5, 0, 0, 0, 1)
B(bitand_long_ok_uint, ND_BITAND, 2, 2, 0, 0, 5, 1, 1)
B(bitand_long_ko_uint, ND_BITAND, 2, 2, 5, 1, 0, 0, 1)
B(bitand_long_ok_short, ND_BITAND, 2, 2, 0, 0, 5, 8, 1)
B(bitand_long_ko_short, ND_BITAND, 2, 2, 5, 8, 0, 0, 1)
B(bitand_long_ok_uchar, ND_BITAND, 2, 2, 0, 0, 5, 7, 1)
B(bitand_long_ko_uchar, ND_BITAND, 2, 2, 5, 7, 0, 0, 1)
B(bitand_long_ok_bool, ND_BITAND, 2, 2, 0, 0, 5, 5, 1)
B(bitand_long_ko_bool, ND_BITAND, 2, 2, 5, 5, 0, 0, 1)
B(bitand_long_ok_ulong, ND_BITAND, 2, 2, 0, 0, 5, 3, 1)
B(bitand_long_ko_ulong, ND_BITAND, 2, 2, 5, 3, 0, 0, 1)
B(bitand_ulong_plain, ND_BITAND, 3, 3, 0, 0, 0, 0, 0)
B(bitand_ulong_on, ND_BITAND, 3, 3, 0, 0, 1, 0, 1)
B(bitand_ulong_no, ND_BITAND, 3, 3, 1, 0, 0, 0, 1)
B(bitand_ulong_oo, ND_BITAND, 3, 3, 0, 0, 0, 0, 1)
B(bitand_ulong_lo, ND_BITAND, 3, 3, 2, 0, 0, 0, 1)
B(bitand_ulong_ol, ND_BITAND, 3, 3, 0, 0, 2, 0, 1)
B(bitand_ulong_ln, ND_BITAND, 3, 3, 2, 0, 1, 0, 1)
B(bitand_ulong_nl, ND_BITAND, 3, 3, 1, 0, 2, 0, 1)
B(bitand_ulong_go, ND_BITAND, 3, 3, 3, 0, 0, 0, 1)
B(bitand_ulong_og, ND_BITAND, 3, 3, 0, 0, 3, 0, 1)
B(bitand_ulong_ok_int, ND_BITAND, 3, 3, 0, 0, 5, 0, 1)
B(bitand_ulong_ko_int, ND_BITAND, 3, 3, 5, 0, 0, 0, 1)
B(bitand_ulong_ok_uint, ND_BITAND, 3, 3, 0, 0, 5, 1, 1)
B(bitand_ulong_ko_uint, ND_BITAND, 3, 3, 5, 1, 0, 0, 1)
B(bitand_ulong_ok_short, ND_BITAND, 3, 3, 0, 0, 5, 8, 1)
B(bitand_ulong_ko_short, ND_BITAND, 3, 3, 5, 8, 0, 0, 1)
B(bitand_ulong_ok_uchar, ND_BITAND, 3, 3, 0, 0, 5, 7, 1)
B(bitand_ulong_ko_uchar, ND_BITAND, 3, 3, 5, 7, 0, 0, 1)
B(bitand_ulong_ok_bool, ND_BITAND, 3, 3, 0, 0, 5, 5, 1)
B(bitand_ulong_ko_bool, ND_BITAND, 3, 3, 5, 5, 0, 0, 1)
B(bitand_ulong_ok_long, ND_BITAND, 3, 3, 0, 0, 5, 2, 1)
B(bitand_ulong_ko_long, ND_BITAND, 3, 3, 5, 2, 0, 0, 1)
B(bitor_int_plain, ND_BITOR, 0, 0, 0, 0, 0, 0, 0)
B(bitor_int_on, ND_BITOR, 0, 0, 0, 0, 1, 0, 1)
B(bitor_int_no, ND_BITOR, 0, 0, 1, 0, 0, 0, 1)
B(bitor_int_oo, ND_BITOR, 0, 0, 0, 0, 0, 0, 1)
B(bitor_int_lo, ND_BITOR, 0, 0, 2, 0, 0, 0, 1)
B(bitor_int_ol, ND_BITOR, 0, 0, 0, 0, 2, 0, 1)
B(bitor_int_ln, ND_BITOR, 0, 0, 2, 0, 1, 0, 1)
B(bitor_int_nl, ND_BITOR, 0, 0, 1, 0, 2, 0, 1)
B(bitor_int_go, ND_BITOR, 0, 0, 3, 0, 0, 0, 1)
B(bitor_int_og, ND_BITOR, 0, 0, 0, 0, 3, 0, 1)
B(bitor_int_ok_long, ND_BITOR, 0, 0, 0, 0, 5, 2, 1)
B(bitor_int_ko_long, ND_BITOR, 0, 0, 5, 2, 0, 0, 1)
B(bitor_int_ok_short, ND_BITOR, 0, 0, 0, 0, 5, 8, 1)
B(bitor_int_ko_short, ND_BITOR, 0, 0, 5, 8, 0, 0, 1)
B(bitor_int_ok_uchar, ND_BITOR, 0, 0, 0, 0, 5, 7, 1)
B(bitor_int_ko_uchar, ND_BITOR, 0, 0, 5, 7, 0, 0, 1)
B(bitor_int_ok_bool, ND_BITOR, 0, 0, 0, 0, 5, 5, 1)
B(bitor_int_ko_bool, ND_BITOR, 0, 0, 5, 5, 0, 0, 1)
B(bitor_int_ok_uint, ND_BITOR, 0, 0, 0, 0, 5, 1, 1)
B(bitor_int_ko_uint, ND_BITOR, 0, 0, 5, 1, 0, 0, 1)
B(bitor_uint_plain, ND_BITOR, 1, 1, 0, 0, 0, 0, 0)
B(bitor_uint_on, ND_BITOR, 1, 1, 0, 0, 1, 0, 1)
B(bitor_uint_no, ND_BITOR, 1, 1, 1, 0, 0, 0, 1)
B(bitor_uint_oo, ND_BITOR, 1, 1, 0, 0, 0, 0, 1)
B(bitor_uint_lo, ND_BITOR, 1, 1, 2, 0, 0, 0, 1)
B(bitor_uint_ol, ND_BITOR, 1, 1, 0, 0, 2, 0, 1)
B(bitor_uint_ln, ND_BITOR, 1, 1, 2, 0, 1, 0, 1)
B(bitor_uint_nl, ND_BITOR, 1, 1, 1, 0, 2, 0, 1)
B(bitor_uint_go, ND_BITOR, 1, 1, 3, 0, 0, 0, 1)
B(bitor_uint_og, ND_BITOR, 1, 1, 0, 0, 3, 0, 1)
B(bitor_uint_ok_long, ND_BITOR, 1, 1, 0, 0, 5, 2, 1)
B(bitor_uint_ko_long, ND_BITOR, 1, 1, 5, 2, 0, 0, 1)
B(bitor_uint_ok_short, ND_BITOR, 1, 1, 0, 0, 5, 8, 1)
B(bitor_uint_ko_short, ND_BITOR, 1, 1, 5, 8, 0, 0, 1)
B(bitor_uint_ok_uchar, ND_BITOR, 1, 1, 0, 0, 5, 7, 1)
B(bitor_uint_ko_uchar, ND_BITOR, 1, 1, 5, 7, 0, 0, 1)
B(bitor_uint_ok_bool, ND_BITOR, 1, 1, 0, 0, 5, 5, 1)
B(bitor_uint_ko_bool, ND_BITOR, 1, 1, 5, 5, 0, 0, 1)
B(bitor_uint_ok_int, ND_BITOR, 1, 1, 0, 0, 5, 0, 1)
B(bitor_uint_ko_int, ND_BITOR, 1, 1, 5, 0, 0, 0, 1)
B(bitor_long_plain, ND_BITOR, 2, 2, 0, 0, 0, 0, 0)
B(bitor_long_on, ND_BITOR, 2, 2, 0, 0, 1, 0, 1)
B(bitor_long_no, ND_BITOR, 2, 2, 1, 0, 0, 0, 1)
B(bitor_long_oo, ND_BITOR, 2, 2, 0, 0, 0, 0, 1)
B(bitor_long_lo, ND_BITOR, 2, 2, 2, 0, 0, 0, 1)
B(bitor_long_ol, ND_BITOR, 2, 2, 0, 0, 2, 0, 1)
B(bitor_long_ln, ND_BITOR, 2, 2, 2, 0, 1, 0, 1)
B(bitor_long_nl, ND_BITOR, 2, 2, 1, 0, 2, 0, 1)
B(bitor_long_go, ND_BITOR, 2, 2, 3, 0, 0, 0, 1)
B(bitor_long_og, ND_BITOR, 2, 2, 0, 0, 3, 0, 1)
B(bitor_long_ok_int, ND_BITOR, 2, 2, 0, 0, 5, 0, 1)
B(bitor_long_ko_int, ND_BITOR, 2, 2, 5, 0, 0, 0, 1)
B(bitor_long_ok_uint, ND_BITOR, 2, 2, 0, 0, 5, 1, 1)
B(bitor_long_ko_uint, ND_BITOR, 2, 2, 5, 1, 0, 0, 1)
B(bitor_long_ok_short, ND_BITOR, 2, 2, 0, 0, 5, 8, 1)
B(bitor_long_ko_short, ND_BITOR, 2, 2, 5, 8, 0, 0, 1)
B(bitor_long_ok_uchar, ND_BITOR, 2, 2, 0, 0, 5, 7, 1)
B(bitor_long_ko_uchar, ND_BITOR, 2, 2, 5, 7, 0, 0, 1)
B(bitor_long_ok_bool, ND_BITOR, 2, 2, 0, 0, 5, 5, 1)
B(bitor_long_ko_bool, ND_BITOR, 2, 2, 5, 5, 0, 0, 1)
B(bitor_long_ok_ulong, ND_BITOR, 2, 2, 0, 0, 5, 3, 1)
B(bitor_long_ko_ulong, ND_BITOR, 2, 2, 5, 3, 0, 0, 1)
B(bitor_ulong_plain, ND_BITOR, 3, 3, 0, 0, 0, 0, 0)
B(bitor_ulong_on, ND_BITOR, 3, 3, 0, 0, 1, 0, 1)
B(bitor_ulong_no, ND_BITOR, 3, 3, 1, 0, 0, 0, 1)
B(bitor_ulong_oo, ND_BITOR, 3, 3, 0, 0, 0, 0, 1)
B(bitor_ulong_lo, ND_BITOR, 3, 3, 2, 0, 0, 0, 1)
B(bitor_ulong_ol, ND_BITOR, 3, 3, 0, 0, 2, 0, 1)
B(bitor_ulong_ln, ND_BITOR, 3, 3, 2, 0, 1, 0, 1)
B(bitor_ulong_nl, ND_BITOR, 3, 3, 1, 0, 2, 0, 1)
B(bitor_ulong_go, ND_BITOR, 3, 3, 3, 0, 0, 0, 1)
B(bitor_ulong_og, ND_BITOR, 3, 3, 0, 0, 3, 0, 1)
B(bitor_ulong_ok_int, ND_BITOR, 3, 3, 0, 0, 5, 0, 1)
B(bitor_ulong_ko_int, ND_BITOR, 3, 3, 5, 0, 0, 0, 1)
B(bitor_ulong_ok_uint, ND_BITOR, 3, 3, 0, 0, 5, 1, 1)
B(bitor_ulong_ko_uint, ND_BITOR, 3, 3, 5, 1, 0, 0, 1)
B(bitor_ulong_ok_short, ND_BITOR, 3, 3, 0, 0, 5, 8, 1)
B(bitor_ulong_ko_short, ND_BITOR, 3, 3, 5, 8, 0, 0, 1)
B(bitor_ulong_ok_uchar, ND_BITOR, 3, 3, 0, 0, 5, 7, 1)
B(bitor_ulong_ko_uchar, ND_BITOR, 3, 3, 5, 7, 0, 0, 1)
B(bitor_ulong_ok_bool, ND_BITOR, 3, 3, 0, 0, 5, 5, 1)
B(bitor_ulong_ko_bool, ND_BITOR, 3, 3, 5, 5, 0, 0, 1)
B(bitor_ulong_ok_long, ND_BITOR, 3, 3, 0, 0, 5, 2, 1)
B(bitor_ulong_ko_long, ND_BITOR, 3, 3, 5, 2, 0, 0, 1)
B(bitxor_int_plain, ND_BITXOR, 0, 0, 0, 0, 0, 0, 0)
B(bitxor_int_on, ND_BITXOR, 0, 0, 0, 0, 1, 0, 1)
B(bitxor_int_no, ND_BITXOR, 0, 0, 1, 0, 0, 0, 1)
B(bitxor_int_oo, ND_BITXOR, 0, 0, 0, 0, 0, 0, 1)
B(bitxor_int_lo, ND_BITXOR, 0, 0, 2, 0, 0, 0, 1)
B(bitxor_int_ol, ND_BITXOR, 0, 0, 0, 0, 2, 0, 1)
B(bitxor_int_ln, ND_BITXOR, 0, 0, 2, 0, 1, 0, 1)
B(bitxor_int_nl, ND_BITXOR, 0, 0, 1, 0, 2, 0, 1)
B(bitxor_int_go, ND_BITXOR, 0, 0, 3, 0, 0, 0, 1)
B(bitxor_int_og, ND_BITXOR, 0, 0, 0, 0, 3, 0, 1)
B(bitxor_int_ok_long, ND_BITXOR, 0, 0, 0, 0, 5, 2, 1)
B(bitxor_int_ko_long, ND_BITXOR, 0, 0, 5, 2, 0, 0, 1)
B(bitxor_int_ok_short, ND_BITXOR, 0, 0, 0, 0, 5, 8, 1)
B(bitxor_int_ko_short, ND_BITXOR, 0, 0, 5, 8, 0, 0, 1)
B(bitxor_int_ok_uchar, ND_BITXOR, 0, 0, 0, 0, 5, 7, 1)
B(bitxor_int_ko_uchar, ND_BITXOR, 0, 0, 5, 7, 0, 0, 1)
B(bitxor_int_ok_bool, ND_BITXOR, 0, 0, 0, 0, 5, 5, 1)
B(bitxor_int_ko_bool, ND_BITXOR, 0, 0, 5, 5, 0, 0, 1)
B(bitxor_int_ok_uint, ND_BITXOR, 0, 0, 0, 0, 5, 1, 1)
B(bitxor_int_ko_uint, ND_BITXOR, 0, 0, 5, 1, 0, 0, 1)
B(bitxor_uint_plain, ND_BITXOR, 1, 1, 0, 0, 0, 0, 0)
B(bitxor_uint_on, ND_BITXOR, 1, 1, 0, 0, 1, 0, 1)
B(bitxor_uint_no, ND_BITXOR, 1, 1, 1, 0, 0, 0, 1)
B(bitxor_uint_oo, ND_BITXOR, 1, 1, 0, 0, 0, 0, 1)
B(bitxor_uint_lo, ND_BITXOR, 1, 1, 2, 0, 0, 0, 1)
B(bitxor_uint_ol, ND_BITXOR, 1, 1, 0, 0, 2, 0, 1)
B(bitxor_uint_ln, ND_BITXOR, 1, 1, 2, 0, 1, 0, 1)
B(bitxor_uint_nl, ND_BITXOR, 1, 1, 1, 0, 2, 0, 1)
B(bitxor_uint_go, ND_BITXOR, 1, 1, 3, 0, 0, 0, 1)
B(bitxor_uint_og, ND_BITXOR, 1, 1, 0, 0, 3, 0, 1)
B(bitxor_uint_ok_long, ND_BITXOR, 1, 1, 0, 0, 5, 2, 1)
B(bitxor_uint_ko_long, ND_BITXOR, 1, 1, 5, 2, 0, 0, 1)
B(bitxor_uint_ok_short, ND_BITXOR, 1, 1, 0, 0, 5, 8, 1)
B(bitxor_uint_ko_short, ND_BITXOR, 1, 1, 5, 8, 0, 0, 1)
B(bitxor_uint_ok_uchar, ND_BITXOR, 1, 1, 0, 0, 5, 7, 1)
B(bitxor_uint_ko_uchar, ND_BITXOR, 1, 1, 5, 7, 0, 0, 1)
B(bitxor_uint_ok_bool, ND_BITXOR, 1, 1, 0, 0, 5, 5, 1)
B(bitxor_uint_ko_bool, ND_BITXOR, 1, 1, 5, 5, 0, 0, 1)
B(bitxor_uint_ok_int, ND_BITXOR, 1, 1, 0, 0, 5, 0, 1)
B(bitxor_uint_ko_int, ND_BITXOR, 1, 1, 5, 0, 0, 0, 1)
B(bitxor_long_plain, ND_BITXOR, 2, 2, 0, 0, 0, 0, 0)
B(bitxor_long_on, ND_BITXOR, 2, 2, 0, 0, 1, 0, 1)
B(bitxor_long_no, ND_BITXOR, 2, 2, 1, 0, 0, 0, 1)
B(bitxor_long_oo, ND_BITXOR, 2, 2, 0, 0, 0, 0, 1)
B(bitxor_long_lo, ND_BITXOR, 2, 2, 2, 0, 0, 0, 1)
B(bitxor_long_ol, ND_BITXOR, 2, 2, 0, 0, 2, 0, 1)
B(bitxor_long_ln, ND_BITXOR, 2, 2, 2, 0, 1, 0, 1)
B(bitxor_long_nl, ND_BITXOR, 2, 2, 1, 0, 2, 0, 1)
B(bitxor_long_go, ND_BITXOR, 2, 2, 3, 0, 0, 0, 1)
B(bitxor_long_og, ND_BITXOR, 2, 2, 0, 0, 3, 0, 1)
B(bitxor_long_ok_int, ND_BITXOR, 2, 2, 0, 0, 5, 0, 1)
B(bitxor_long_ko_int, ND_BITXOR, 2, 2, 5, 0, 0, 0, 1)
B(bitxor_long_ok_uint, ND_BITXOR, 2, 2, 0, 0, 5, 1, 1)
B(bitxor_long_ko_uint, ND_BITXOR, 2, 2, 5, 1, 0, 0, 1)
B(bitxor_long_ok_short, ND_BITXOR, 2, 2, 0, 0, 5, 8, 1)
B(bitxor_long_ko_short, ND_BITXOR, 2, 2, 5, 8, 0, 0, 1)
B(bitxor_long_ok_uchar, ND_BITXOR, 2, 2, 0, 0, 5, 7, 1)
B(bitxor_long_ko_uchar, ND_BITXOR, 2, 2, 5, 7, 0, 0, 1)
B(bitxor_long_ok_bool, ND_BITXOR, 2, 2, 0, 0, 5, 5, 1)
B(bitxor_long_ko_bool, ND_BITXOR, 2, 2, 5, 5, 0, 0, 1)
B(bitxor_long_ok_ulong, ND_BITXOR, 2, 2, 0, 0, 5, 3, 1)
B(bitxor_long_ko_ulong, ND_BITXOR, 2, 2, 5, 3, 0, 0, 1)
B(bitxor_ulong_plain, ND_BITXOR, 3, 3, 0, 0, 0, 0, 0)
B(bitxor_ulong_on, ND_BITXOR, 3, 3, 0, 0, 1, 0, 1)
B(bitxor_ulong_no, ND_BITXOR, 3, 3, 1, 0, 0, 0, 1)
B(bitxor_ulong_oo, ND_BITXOR, 3, 3, 0, 0, 0, 0, 1)
B(bitxor_ulong_lo, ND_BITXOR, 3, 3, 2, 0, 0, 0, 1)
B(bitxor_ulong_ol, ND_BITXOR, 3, 3, 0, 0, 2, 0, 1)
B(bitxor_ulong_ln, ND_BITXOR, 3, 3, 2, 0, 1, 0, 1)
B(bitxor_ulong_nl, ND_BITXOR, 3, 3, 1, 0, 2, 0, 1)
B(bitxor_ulong_go, ND_BITXOR, 3, 3, 3, 0, 0, 0, 1)
B(bitxor_ulong_og, ND_BITXOR, 3, 3, 0, 0, 3, 0, 1)
B(bitxor_ulong_ok_int, ND_BITXOR, 3, 3, 0, 0, 5, 0, 1)
B(bitxor_ulong_ko_int, ND_BITXOR, 3, 3, 5, 0, 0, 0, 1)
B(bitxor_ulong_ok_uint, ND_BITXOR, 3, 3, 0, 0, 5, 1, 1)
B(bitxor_ulong_ko_uint, ND_BITXOR, 3, 3, 5, 1, 0, 0, 1)
B(bitxor_ulong_ok_short, ND_BITXOR, 3, 3, 0, 0, 5, 8, 1)
B(bitxor_ulong_ko_short, ND_BITXOR, 3, 3, 5, 8, 0, 0, 1)
B(bitxor_ulong_ok_uchar, ND_BITXOR, 3, 3, 0, 0, 5, 7, 1)
B(bitxor_ulong_ko_uchar, ND_BITXOR, 3, 3, 5, 7, 0, 0, 1)
B(bitxor_ulong_ok_bool, ND_BITXOR, 3, 3, 0, 0, 5, 5, 1)
B(bitxor_ulong_ko_bool, ND_BITXOR, 3, 3, 5, 5, 0, 0, 1)
B(bitxor_ulong_ok_long, ND_BITXOR, 3, 3, 0, 0, 5, 2, 1)
B(bitxor_ulong_ko_long, ND_BITXOR, 3, 3, 5, 2, 0, 0, 1)
B(eq_int_plain, ND_EQ, 0, 0, 0, 0, 0, 0, 0)
B(eq_int_on, ND_EQ, 0, 0, 0, 0, 1, 0, 1)
B(eq_int_no, ND_EQ, 0, 0, 1, 0, 0, 0, 1)
B(eq_int_oo, ND_EQ, 0, 0, 0, 0, 0, 0, 1)
B(eq_int_lo, ND_EQ, 0, 0, 2, 0, 0, 0, 1)
B(eq_int_ol, ND_EQ, 0, 0, 0, 0, 2, 0, 1)
B(eq_int_ln, ND_EQ, 0, 0, 2, 0, 1, 0, 1)
B(eq_int_nl, ND_EQ, 0, 0, 1, 0, 2, 0, 1)
B(eq_int_go, ND_EQ, 0, 0, 3, 0, 0, 0, 1)
B(eq_int_og, ND_EQ, 0, 0, 0, 0, 3, 0, 1)
B(eq_int_ok_long, ND_EQ, 0, 0, 0, 0, 5, 2, 1)
B(eq_int_ko_long, ND_EQ, 0, 0, 5, 2, 0, 0, 1)
B(eq_int_ok_short, ND_EQ, 0, 0, 0, 0, 5, 8, 1)
B(eq_int_ko_short, ND_EQ, 0, 0, 5, 8, 0, 0, 1)
B(eq_int_ok_uchar, ND_EQ, 0, 0, 0, 0, 5, 7, 1)
B(eq_int_ko_uchar, ND_EQ, 0, 0, 5, 7, 0, 0, 1)
B(eq_int_ok_bool, ND_EQ, 0, 0, 0, 0, 5, 5, 1)
B(eq_int_ko_bool, ND_EQ, 0, 0, 5, 5, 0, 0, 1)
B(eq_int_ok_uint, ND_EQ, 0, 0, 0, 0, 5, 1, 1)
B(eq_int_ko_uint, ND_EQ, 0, 0, 5, 1, 0, 0, 1)
B(eq_uint_plain, ND_EQ, 1, 1, 0, 0, 0, 0, 0)
B(eq_uint_on, ND_EQ, 1, 1, 0, 0, 1, 0, 1)
B(eq_uint_no, ND_EQ, 1, 1, 1, 0, 0, 0, 1)
B(eq_uint_oo, ND_EQ, 1, 1, 0, 0, 0, 0, 1)
B(eq_uint_lo, ND_EQ, 1, 1, 2, 0, 0, 0, 1)
B(eq_uint_ol, ND_EQ, 1, 1, 0, 0, 2, 0, 1)
B(eq_uint_ln, ND_EQ, 1, 1, 2, 0, 1, 0, 1)
B(eq_uint_nl, ND_EQ, 1, 1, 1, 0, 2, 0, 1)
B(eq_uint_go, ND_EQ, 1, 1, 3, 0, 0, 0, 1)
B(eq_uint_og, ND_EQ, 1, 1, 0, 0, 3, 0, 1)
B(eq_uint_ok_long, ND_EQ, 1, 1, 0, 0, 5, 2, 1)
B(eq_uint_ko_long, ND_EQ, 1, 1, 5, 2, 0, 0, 1)
B(eq_uint_ok_short, ND_EQ, 1, 1, 0, 0, 5, 8, 1)
B(eq_uint_ko_short, ND_EQ, 1, 1, 5, 8, 0, 0, 1)
B(eq_uint_ok_uchar, ND_EQ, 1, 1, 0, 0, 5, 7, 1)
B(eq_uint_ko_uchar, ND_EQ, 1, 1, 5, 7, 0, 0, 1)
B(eq_uint_ok_bool, ND_EQ, 1, 1, 0, 0, 5, 5, 1)
B(eq_uint_ko_bool, ND_EQ, 1, 1, 5, 5, 0, 0, 1)
B(eq_uint_ok_int, ND_EQ, 1, 1, 0, 0, 5, 0, 1)
B(eq_uint_ko_int, ND_EQ, 1, 1, 5, 0, 0, 0, 1)
B(eq_long_plain, ND_EQ, 2, 2, 0, 0, 0, 0, 0)
B(eq_long_on, ND_EQ, 2, 2, 0, 0, 1, 0, 1)
B(eq_long_no, ND_EQ, 2, 2, 1, 0, 0, 0, 1)
B(eq_long_oo, ND_EQ, 2, 2, 0, 0, 0, 0, 1)
B(eq_long_lo, ND_EQ, 2, 2, 2, 0, 0, 0, 1)
B(eq_long_ol, ND_EQ, 2, 2, 0, 0, 2, 0, 1)
B(eq_long_ln, ND_EQ, 2, 2, 2, 0, 1, 0, 1)
B(eq_long_nl, ND_EQ, 2, 2, 1, 0, 2, 0, 1)
B(eq_long_go, ND_EQ, 2, 2, 3, 0, 0, 0, 1)
B(eq_long_og, ND_EQ, 2, 2, 0, 0, 3, 0, 1)
B(eq_long_ok_int, ND_EQ, 2, 2, 0, 0, 5, 0, 1)
B(eq_long_ko_int, ND_EQ, 2, 2, 5, 0, 0, 0, 1)
B(eq_long_ok_uint, ND_EQ, 2, 2, 0, 0, 5, 1, 1)
B(eq_long_ko_uint, ND_EQ, 2, 2, 5, 1, 0, 0, 1)
B(eq_long_ok_short, ND_EQ, 2, 2, 0, 0, 5, 8, 1)
B(eq_long_ko_short, ND_EQ, 2, 2, 5, 8, 0, 0, 1)
B(eq_long_ok_uchar, ND_EQ, 2, 2, 0, 0, 5, 7, 1)
B(eq_long_ko_uchar, ND_EQ, 2, 2, 5, 7, 0, 0, 1)
B(eq_long_ok_bool, ND_EQ, 2, 2, 0, 0, 5, 5, 1)
B(eq_long_ko_bool, ND_EQ, 2, 2, 5, 5, 0, 0, 1)
B(eq_long_ok_ulong, ND_EQ, 2, 2, 0, 0, 5, 3, 1)
B(eq_long_ko_ulong, ND_EQ, 2, 2, 5, 3, 0, 0, 1)
B(eq_ulong_plain, ND_EQ, 3, 3, 0, 0, 0, 0, 0)
B(eq_ulong_on, ND_EQ, 3, 3, 0, 0, 1, 0, 1)
B(eq_ulong_no, ND_EQ, 3, 3, 1, 0, 0, 0, 1)
B(eq_ulong_oo, ND_EQ, 3, 3, 0, 0, 0, 0, 1)
B(eq_ulong_lo, ND_EQ, 3, 3, 2, 0, 0, 0, 1)
B(eq_ulong_ol, ND_EQ, 3, 3, 0, 0, 2, 0, 1)
B(eq_ulong_ln, ND_EQ, 3, 3, 2, 0, 1, 0, 1)
B(eq_ulong_nl, ND_EQ, 3, 3, 1, 0, 2, 0, 1)
B(eq_ulong_go, ND_EQ, 3, 3, 3, 0, 0, 0, 1)
B(eq_ulong_og, ND_EQ, 3, 3, 0, 0, 3, 0, 1)
B(eq_ulong_ok_int, ND_EQ, 3, 3, 0, 0, 5, 0, 1)
B(eq_ulong_ko_int, ND_EQ, 3, 3, 5, 0, 0, 0, 1)
B(eq_ulong_ok_uint, ND_EQ, 3, 3, 0, 0, 5, 1, 1)
B(eq_ulong_ko_uint, ND_EQ, 3, 3, 5, 1, 0, 0, 1)
B(eq_ulong_ok_short, ND_EQ, 3, 3, 0, 0, 5, 8, 1)
B(eq_ulong_ko_short, ND_EQ, 3, 3, 5, 8, 0, 0, 1)
B(eq_ulong_ok_uchar, ND_EQ, 3, 3, 0, 0, 5, 7, 1)
B(eq_ulong_ko_uchar, ND_EQ, 3, 3, 5, 7, 0, 0, 1)
B(eq_ulong_ok_bool, ND_EQ, 3, 3, 0, 0, 5, 5, 1)
B(eq_ulong_ko_bool, ND_EQ, 3, 3, 5, 5, 0, 0, 1)
B(eq_ulong_ok_long, ND_EQ, 3, 3, 0, 0, 5, 2, 1)
B(eq_ulong_ko_long, ND_EQ, 3, 3, 5, 2, 0, 0, 1)
B(ne_int_plain, ND_NE, 0, 0, 0, 0, 0, 0, 0)
B(ne_int_on, ND_NE, 0, 0, 0, 0, 1, 0, 1)
B(ne_int_no, ND_NE, 0, 0, 1, 0, 0, 0, 1)
B(ne_int_oo, ND_NE, 0, 0, 0, 0, 0, 0, 1)
B(ne_int_lo, ND_NE, 0, 0, 2, 0, 0, 0, 1)
B(ne_int_ol, ND_NE, 0, 0, 0, 0, 2, 0, 1)
B(ne_int_ln, ND_NE, 0, 0, 2, 0, 1, 0, 1)
B(ne_int_nl, ND_NE, 0, 0, 1, 0, 2, 0, 1)
B(ne_int_go, ND_NE, 0, 0, 3, 0, 0, 0, 1)
B(ne_int_og, ND_NE, 0, 0, 0, 0, 3, 0, 1)
B(ne_int_ok_long, ND_NE, 0, 0, 0, 0, 5, 2, 1)
B(ne_int_ko_long, ND_NE, 0, 0, 5, 2, 0, 0, 1)
B(ne_int_ok_short, ND_NE, 0, 0, 0, 0, 5, 8, 1)
B(ne_int_ko_short, ND_NE, 0, 0, 5, 8, 0, 0, 1)
B(ne_int_ok_uchar, ND_NE, 0, 0, 0, 0, 5, 7, 1)
B(ne_int_ko_uchar, ND_NE, 0, 0, 5, 7, 0, 0, 1)
B(ne_int_ok_bool, ND_NE, 0, 0, 0, 0, 5, 5, 1)
B(ne_int_ko_bool, ND_NE, 0, 0, 5, 5, 0, 0, 1)
B(ne_int_ok_uint, ND_NE, 0, 0, 0, 0, 5, 1, 1)
B(ne_int_ko_uint, ND_NE, 0, 0, 5, 1, 0, 0, 1)
B(ne_uint_plain, ND_NE, 1, 1, 0, 0, 0, 0, 0)
B(ne_uint_on, ND_NE, 1, 1, 0, 0, 1, 0, 1)
B(ne_uint_no, ND_NE, 1, 1, 1, 0, 0, 0, 1)
B(ne_uint_oo, ND_NE, 1, 1, 0, 0, 0, 0, 1)
B(ne_uint_lo, ND_NE, 1, 1, 2, 0, 0, 0, 1)
B(ne_uint_ol, ND_NE, 1, 1, 0, 0, 2, 0, 1)
B(ne_uint_ln, ND_NE, 1, 1, 2, 0, 1, 0, 1)
B(ne_uint_nl, ND_NE, 1, 1, 1, 0, 2, 0, 1)
B(ne_uint_go, ND_NE, 1, 1, 3, 0, 0, 0, 1)
B(ne_uint_og, ND_NE, 1, 1, 0, 0, 3, 0, 1)
B(ne_uint_ok_long, ND_NE, 1, 1, 0, 0, 5, 2, 1)
B(ne_uint_ko_long, ND_NE, 1, 1, 5, 2, 0, 0, 1)
B(ne_uint_ok_short, ND_NE, 1, 1, 0, 0, 5, 8, 1)
B(ne_uint_ko_short, ND_NE, 1, 1, 5, 8, 0, 0, 1)
B(ne_uint_ok_uchar, ND_NE, 1, 1, 0, 0, 5, 7, 1)
B(ne_uint_ko_uchar, ND_NE, 1, 1, 5, 7, 0, 0, 1)
B(ne_uint_ok_bool, ND_NE, 1, 1, 0, 0, 5, 5, 1)
B(ne_uint_ko_bool, ND_NE, 1, 1, 5, 5, 0, 0, 1)
B(ne_uint_ok_int, ND_NE, 1, 1, 0, 0, 5, 0, 1)
B(ne_uint_ko_int, ND_NE, 1, 1, 5, 0, 0, 0, 1)
B(ne_long_plain, ND_NE, 2, 2, 0, 0, 0, 0, 0)
B(ne_long_on, ND_NE, 2, 2, 0, 0, 1, 0, 1)
B(ne_long_no, ND_NE, 2, 2, 1, 0, 0, 0, 1)
B(ne_long_oo, ND_NE, 2, 2, 0, 0, 0, 0, 1)
B(ne_long_lo, ND_NE, 2, 2, 2, 0, 0, 0, 1)
B(ne_long_ol, ND_NE, 2, 2, 0, 0, 2, 0, 1)
B(ne_long_ln, ND_NE, 2, 2, 2, 0, 1, 0, 1)
B(ne_long_nl, ND_NE, 2, 2, 1, 0, 2, 0, 1)
B(ne_long_go, ND_NE, 2, 2, 3, 0, 0, 0, 1)
B(ne_long_og, ND_NE, 2, 2, 0, 0, 3, 0, 1)
B(ne_long_ok_int, ND_NE, 2, 2, 0, 0, 5, 0, 1)
B(ne_long_ko_int, ND_NE, 2, 2, 5, 0, 0, 0, 1)
B(ne_long_ok_uint, ND_NE, 2, 2, 0, 0, 5, 1, 1)
B(ne_long_ko_uint, ND_NE, 2, 2, 5, 1, 0, 0, 1)
B(ne_long_ok_short, ND_NE, 2, 2, 0, 0, 5, 8, 1)
B(ne_long_ko_short, ND_NE, 2, 2, 5, 8, 0, 0, 1)
B(ne_long_ok_uchar, ND_NE, 2, 2, 0, 0, 5, 7, 1)
B(ne_long_ko_uchar, ND_NE, 2, 2, 5, 7, 0, 0, 1)
B(ne_long_ok_bool, ND_NE, 2, 2, 0, 0, 5, 5, 1)
B(ne_long_ko_bool, ND_NE, 2, 2, 5, 5, 0, 0, 1)
B(ne_long_ok_ulong, ND_NE, 2, 2, 0, 0, 5, 3, 1)
B(ne_long_ko_ulong, ND_NE, 2, 2, 5, 3, 0, 0, 1)
B(ne_ulong_plain, ND_NE, 3, 3, 0, 0, 0, 0, 0)
B(ne_ulong_on, ND_NE, 3, 3, 0, 0, 1, 0, 1)
B(ne_ulong_no, ND_NE, 3, 3, 1, 0, 0, 0, 1)
B(ne_ulong_oo, ND_NE, 3, 3, 0, 0, 0, 0, 1)
B(ne_ulong_lo, ND_NE, 3, 3, 2, 0, 0, 0, 1)
B(ne_ulong_ol, ND_NE, 3, 3, 0, 0, 2, 0, 1)
B(ne_ulong_ln, ND_NE, 3, 3, 2, 0, 1, 0, 1)
B(ne_ulong_nl, ND_NE, 3, 3, 1, 0, 2, 0, 1)
B(ne_ulong_go, ND_NE, 3, 3, 3, 0, 0, 0, 1)
B(ne_ulong_og, ND_NE, 3, 3, 0, 0, 3, 0, 1)
B(ne_ulong_ok_int, ND_NE, 3, 3, 0, 0, 5, 0, 1)
B(ne_ulong_ko_int, ND_NE, 3, 3, 5, 0, 0, 0, 1)
B(ne_ulong_ok_uint, ND_NE, 3, 3, 0, 0, 5, 1, 1)
B(ne_ulong_ko_uint, ND_NE, 3, 3, 5, 1, 0, 0, 1)
B(ne_ulong_ok_short, ND_NE, 3, 3, 0, 0, 5, 8, 1)
B(ne_ulong_ko_short, ND_NE, 3, 3, 5, 8, 0, 0, 1)
B(ne_ulong_ok_uchar, ND_NE, 3, 3, 0, 0, 5, 7, 1)
B(ne_ulong_ko_uchar, ND_NE, 3, 3, 5, 7, 0, 0, 1)
B(ne_ulong_ok_bool, ND_NE, 3, 3, 0, 0, 5, 5, 1)
B(ne_ulong_ko_bool, ND_NE, 3, 3, 5, 5, 0, 0, 1)
B(ne_ulong_ok_long, ND_NE, 3, 3, 0, 0, 5, 2, 1)
B(ne_ulong_ko_long, ND_NE, 3, 3, 5, 2, 0, 0, 1)
B(lt_int_plain, ND_LT, 0, 0, 0, 0, 0, 0, 0)
B(lt_int_on, ND_LT, 0, 0, 0, 0, 1, 0, 1)
B(lt_int_no, ND_LT, 0, 0, 1, 0, 0, 0, 1)
B(lt_int_oo, ND_LT, 0, 0, 0, 0, 0, 0, 1)
B(lt_int_lo, ND_LT, 0, 0, 2, 0, 0, 0, 1)
B(lt_int_ol, ND_LT, 0, 0, 0, 0, 2, 0, 1)
B(lt_int_ln, ND_LT, 0, 0, 2, 0, 1, 0, 1)
B(lt_int_nl, ND_LT, 0, 0, 1, 0, 2, 0, 1)
B(lt_int_go, ND_LT, 0, 0, 3, 0, 0, 0, 1)
B(lt_int_og, ND_LT, 0, 0, 0, 0, 3, 0, 1)
B(lt_int_ok_long, ND_LT, 0, 0, 0, 0, 5, 2, 1)
B(lt_int_ko_long, ND_LT, 0, 0, 5, 2, 0, 0, 1)
B(lt_int_ok_short, ND_LT, 0, 0, 0, 0, 5, 8, 1)
B(lt_int_ko_short, ND_LT, 0, 0, 5, 8, 0, 0, 1)
B(lt_int_ok_uchar, ND_LT, 0, 0, 0, 0, 5, 7, 1)
B(lt_int_ko_uchar, ND_LT, 0, 0, 5, 7, 0, 0, 1)
B(lt_int_ok_bool, ND_LT, 0, 0, 0, 0, 5, 5, 1)
B(lt_int_ko_bool, ND_LT, 0, 0, 5, 5, 0, 0, 1)
B(lt_int_ok_uint, ND_LT, 0, 0, 0, 0, 5, 1, 1)
B(lt_int_ko_uint, ND_LT, 0, 0, 5, 1, 0, 0, 1)
B(lt_uint_plain, ND_LT, 1, 1, 0, 0, 0, 0, 0)
B(lt_uint_on, ND_LT, 1, 1, 0, 0, 1, 0, 1)
B(lt_uint_no, ND_LT, 1, 1, 1, 0, 0, 0, 1)
B(lt_uint_oo, ND_LT, 1, 1, 0, 0, 0, 0, 1)
B(lt_uint_lo, ND_LT, 1, 1, 2, 0, 0, 0, 1)
B(lt_uint_ol, ND_LT, 1, 1, 0, 0, 2, 0, 1)
B(lt_uint_ln, ND_LT, 1, 1, 2, 0, 1, 0, 1)
B(lt_uint_nl, ND_LT, 1, 1, 1, 0, 2, 0, 1)
B(lt_uint_go, ND_LT, 1, 1, 3, 0, 0, 0, 1)
B(lt_uint_og, ND_LT, 1, 1, 0, 0, 3, 0, 1)
B(lt_uint_ok_long, ND_LT, 1, 1, 0, 0, 5, 2, 1)
B(lt_uint_ko_long, ND_LT, 1, 1, 5, 2, 0, 0, 1)
B(lt_uint_ok_short, ND_LT, 1, 1, 0, 0, 5, 8, 1)
B(lt_uint_ko_short, ND_LT, 1, 1, 5, 8, 0, 0, 1)
B(lt_uint_ok_uchar, ND_LT, 1, 1, 0, 0, 5, 7, 1)
B(lt_uint_ko_uchar, ND_LT, 1, 1, 5, 7, 0, 0, 1)
B(lt_uint_ok_bool, ND_LT, 1, 1, 0, 0, 5, 5, 1)
B(lt_uint_ko_bool, ND_LT, 1, 1, 5, 5, 0, 0, 1)
B(lt_uint_ok_int, ND_LT, 1, 1, 0, 0, 5, 0, 1)
B(lt_uint_ko_int, ND_LT, 1, 1, 5, 0, 0, 0, 1)
B(lt_long_plain, ND_LT, 2, 2, 0, 0, 0, 0, 0)
B(lt_long_on, ND_LT, 2, 2, 0, 0, 1, 0, 1)
B(lt_long_no, ND_LT, 2, 2, 1, 0, 0, 0, 1)
B(lt_long_oo, ND_LT, 2, 2, 0, 0, 0, 0, 1)
B(lt_long_lo, ND_LT, 2, 2, 2, 0, 0, 0, 1)
B(lt_long_ol, ND_LT, 2, 2, 0, 0, 2, 0, 1)
B(lt_long_ln, ND_LT, 2, 2, 2, 0, 1, 0, 1)
B(lt_long_nl, ND_LT, 2, 2, 1, 0, 2, 0, 1)
B(lt_long_go, ND_LT, 2, 2, 3, 0, 0, 0, 1)
B(lt_long_og, ND_LT, 2, 2, 0, 0, 3, 0, 1)
B(lt_long_ok_int, ND_LT, 2, 2, 0, 0, 5, 0, 1)
B(lt_long_ko_int, ND_LT, 2, 2, 5, 0, 0, 0, 1)
B(lt_long_ok_uint, ND_LT, 2, 2, 0, 0, 5, 1, 1)
B(lt_long_ko_uint, ND_LT, 2, 2, 5, 1, 0, 0, 1)
B(lt_long_ok_short, ND_LT, 2, 2, 0, 0, 5, 8, 1)
B(lt_long_ko_short, ND_LT, 2, 2, 5, 8, 0, 0, 1)
B(lt_long_ok_uchar, ND_LT, 2, 2, 0, 0, 5, 7, 1)
B(lt_long_ko_uchar, ND_LT, 2, 2, 5, 7, 0, 0, 1)
B(lt_long_ok_bool, ND_LT, 2, 2, 0, 0, 5, 5, 1)
B(lt_long_ko_bool, ND_LT, 2, 2, 5, 5, 0, 0, 1)
B(lt_long_ok_ulong, ND_LT, 2, 2, 0, 0, 5, 3, 1)
B(lt_long_ko_ulong, ND_LT, 2, 2, 5, 3, 0, 0, 1)
B(lt_ulong_plain, ND_LT, 3, 3, 0, 0, 0, 0, 0)
B(lt_ulong_on, ND_LT, 3, 3, 0, 0, 1, 0, 1)
B(lt_ulong_no, ND_LT, 3, 3, 1, 0, 0, 0, 1)
B(lt_ulong_oo, ND_LT, 3, 3, 0, 0, 0, 0, 1)
B(lt_ulong_lo, ND_LT, 3, 3, 2, 0, 0, 0, 1)
B(lt_ulong_ol, ND_LT, 3, 3, 0, 0, 2, 0, 1)
B(lt_ulong_ln, ND_LT, 3, 3, 2, 0, 1, 0, 1)
B(lt_ulong_nl, ND_LT, 3, 3, 1, 0, 2, 0, 1)
B(lt_ulong_go, ND_LT, 3, 3, 3, 0, 0, 0, 1)
B(lt_ulong_og, ND_LT, 3, 3, 0, 0, 3, 0, 1)
B(lt_ulong_ok_int, ND_LT, 3, 3, 0, 0, 5, 0, 1)
B(lt_ulong_ko_int, ND_LT, 3, 3, 5, 0, 0, 0, 1)
B(lt_ulong_ok_uint, ND_LT, 3, 3, 0, 0, 5, 1, 1)
B(lt_ulong_ko_uint, ND_LT, 3, 3, 5, 1, 0, 0, 1)
B(lt_ulong_ok_short, ND_LT, 3, 3, 0, 0, 5, 8, 1)
B(lt_ulong_ko_short, ND_LT, 3, 3, 5, 8, 0, 0, 1)
B(lt_ulong_ok_uchar, ND_LT, 3, 3, 0, 0, 5, 7, 1)
B(lt_ulong_ko_uchar, ND_LT, 3, 3, 5, 7, 0, 0, 1)
B(lt_ulong_ok_bool, ND_LT, 3, 3, 0, 0, 5, 5, 1)
B(lt_ulong_ko_bool, ND_LT, 3, 3, 5, 5, 0, 0, 1)
B(lt_ulong_ok_long, ND_LT, 3, 3, 0, 0, 5, 2, 1)
B(lt_ulong_ko_long, ND_LT, 3, 3, 5, 2, 0, 0, 1)
B(le_int_plain, ND_LE, 0, 0, 0, 0, 0, 0, 0)
B(le_int_on, ND_LE, 0, 0, 0, 0, 1, 0, 1)
B(le_int_no, ND_LE, 0, 0, 1, 0, 0, 0, 1)
B(le_int_oo, ND_LE, 0, 0, 0, 0, 0, 0, 1)
B(le_int_lo, ND_LE, 0, 0, 2, 0, 0, 0, 1)
B(le_int_ol, ND_LE, 0, 0, 0, 0, 2, 0, 1)
B(le_int_ln, ND_LE, 0, 0, 2, 0, 1, 0, 1)
B(le_int_nl, ND_LE, 0, 0, 1, 0, 2, 0, 1)
B(le_int_go, ND_LE, 0, 0, 3, 0, 0, 0, 1)
B(le_int_og, ND_LE, 0, 0, 0, 0, 3, 0, 1)
B(le_int_ok_long, ND_LE, 0, 0, 0, 0, 5, 2, 1)
B(le_int_ko_long, ND_LE, 0, 0, 5, 2, 0, 0, 1)
B(le_int_ok_short, ND_LE, 0, 0, 0, 0, 5, 8, 1)
B(le_int_ko_short, ND_LE, 0, 0, 5, 8, 0, 0, 1)
B(le_int_ok_uchar, ND_LE, 0, 0, 0, 0, 5, 7, 1)
B(le_int_ko_uchar, ND_LE, 0, 0, 5, 7, 0, 0, 1)
B(le_int_ok_bool, ND_LE, 0, 0, 0, 0, 5, 5, 1)
B(le_int_ko_bool, ND_LE, 0, 0, 5, 5, 0, 0, 1)
B(le_int_ok_uint, ND_LE, 0, 0, 0, 0, 5, 1, 1)
B(le_int_ko_uint, ND_LE, 0, 0, 5, 1, 0, 0, 1)
B(le_uint_plain, ND_LE, 1, 1, 0, 0, 0, 0, 0)
B(le_uint_on, ND_LE, 1, 1, 0, 0, 1, 0, 1)
B(le_uint_no, ND_LE, 1, 1, 1, 0, 0, 0, 1)
B(le_uint_oo, ND_LE, 1, 1, 0, 0, 0, 0, 1)
B(le_uint_lo, ND_LE, 1, 1, 2, 0, 0, 0, 1)
B(le_uint_ol, ND_LE, 1, 1, 0, 0, 2, 0, 1)
B(le_uint_ln, ND_LE, 1, 1, 2, 0, 1, 0, 1)
B(le_uint_nl, ND_LE, 1, 1, 1, 0, 2, 0, 1)
B(le_uint_go, ND_LE, 1, 1, 3, 0, 0, 0, 1)
B(le_uint_og, ND_LE, 1, 1, 0, 0, 3, 0, 1)
B(le_uint_ok_long, ND_LE, 1, 1, 0, 0, 5, 2, 1)
B(le_uint_ko_long, ND_LE, 1, 1, 5, 2, 0, 0, 1)
B(le_uint_ok_short, ND_LE, 1, 1, 0, 0, 5, 8, 1)
B(le_uint_ko_short, ND_LE, 1, 1, 5, 8, 0, 0, 1)
B(le_uint_ok_uchar, ND_LE, 1, 1, 0, 0, 5, 7, 1)
B(le_uint_ko_uchar, ND_LE, 1, 1, 5, 7, 0, 0, 1)
B(le_uint_ok_bool, ND_LE, 1, 1, 0, 0, 5, 5, 1)
B(le_uint_ko_bool, ND_LE, 1, 1, 5, 5, 0, 0, 1)
B(le_uint_ok_int, ND_LE, 1, 1, 0, 0, 5, 0, 1)
B(le_uint_ko_int, ND_LE, 1, 1, 5, 0, 0, 0, 1)
B(le_long_plain, ND_LE, 2, 2, 0, 0, 0, 0, 0)
B(le_long_on, ND_LE, 2, 2, 0, 0, 1, 0, 1)
B(le_long_no, ND_LE, 2, 2, 1, 0, 0, 0, 1)
B(le_long_oo, ND_LE, 2, 2, 0, 0, 0, 0, 1)
B(le_long_lo, ND_LE, 2, 2, 2, 0, 0, 0, 1)
B(le_long_ol, ND_LE, 2, 2, 0, 0, 2, 0, 1)
B(le_long_ln, ND_LE, 2, 2, 2, 0, 1, 0, 1)
B(le_long_nl, ND_LE, 2, 2, 1, 0, 2, 0, 1)
B(le_long_go, ND_LE, 2, 2, 3, 0, 0, 0, 1)
B(le_long_og, ND_LE, 2, 2, 0, 0, 3, 0, 1)
B(le_long_ok_int, ND_LE, 2, 2, 0, 0, 5, 0, 1)
B(le_long_ko_int, ND_LE, 2, 2, 5, 0, 0, 0, 1)
B(le_long_ok_uint, ND_LE, 2, 2, 0, 0, 5, 1, 1)
B(le_long_ko_uint, ND_LE, 2, 2, 5, 1, 0, 0, 1)
B(le_long_ok_short, ND_LE, 2, 2, 0, 0, 5, 8, 1)
B(le_long_ko_short, ND_LE, 2, 2, 5, 8, 0, 0, 1)
B(le_long_ok_uchar, ND_LE, 2, 2, 0, 0, 5, 7, 1)
B(le_long_ko_uchar, ND_LE, 2, 2, 5, 7, 0, 0, 1)
B(le_long_ok_bool, ND_LE, 2, 2, 0, 0, 5, 5, 1)
B(le_long_ko_bool, ND_LE, 2, 2, 5, 5, 0, 0, 1)
B(le_long_ok_ulong, ND_LE, 2, 2, 0, 0, 5, 3, 1)
B(le_long_ko_ulong, ND_LE, 2, 2, 5, 3, 0, 0, 1)
B(le_ulong_plain, ND_LE, 3, 3, 0, 0, 0, 0, 0)
B(le_ulong_on, ND_LE, 3, 3, 0, 0, 1, 0, 1)
B(le_ulong_no, ND_LE, 3, 3, 1, 0, 0, 0, 1)
B(le_ulong_oo, ND_LE, 3, 3, 0, 0, 0, 0, 1)
B(le_ulong_lo, ND_LE, 3, 3, 2, 0, 0, 0, 1)
B(le_ulong_ol, ND_LE, 3, 3, 0, 0, 2, 0, 1)
B(le_ulong_ln, ND_LE, 3, 3, 2, 0, 1, 0, 1)
B(le_ulong_nl, ND_LE, 3, 3, 1, 0, 2, 0, 1)
B(le_ulong_go, ND_LE, 3, 3, 3, 0, 0, 0, 1)
B(le_ulong_og, ND_LE, 3, 3, 0, 0, 3, 0, 1)
B(le_ulong_ok_int, ND_LE, 3, 3, 0, 0, 5, 0, 1)
B(le_ulong_ko_int, ND_LE, 3, 3, 5, 0, 0, 0, 1)
B(le_ulong_ok_uint, ND_LE, 3, 3, 0, 0, 5, 1, 1)
B(le_ulong_ko_uint, ND_LE, 3, 3, 5, 1, 0, 0, 1)
B(le_ulong_ok_short, ND_LE, 3, 3, 0, 0, 5, 8, 1)
B(le_ulong_ko_short, ND_LE, 3, 3, 5, 8, 0, 0, 1)
B(le_ulong_ok_uchar, ND_LE, 3, 3, 0, 0, 5, 7, 1)
B(le_ulong_ko_uchar, ND_LE, 3, 3, 5, 7, 0, 0, 1)
B(le_ulong_ok_bool, ND_LE, 3, 3, 0, 0, 5, 5, 1)
B(le_ulong_ko_bool, ND_LE, 3, 3, 5, 5, 0, 0, 1)
B(le_ulong_ok_long, ND_LE, 3, 3, 0, 0, 5, 2, 1)
B(le_ulong_ko_long, ND_LE, 3, 3, 5, 2, 0, 0, 1)
B(gt_int_plain, ND_GT, 0, 0, 0, 0, 0, 0, 0)
B(gt_int_on, ND_GT, 0, 0, 0, 0, 1, 0, 1)
B(gt_int_no, ND_GT, 0, 0, 1, 0, 0, 0, 1)
B(gt_int_oo, ND_GT, 0, 0, 0, 0, 0, 0, 1)
B(gt_int_lo, ND_GT, 0, 0, 2, 0, 0, 0, 1)
B(gt_int_ol, ND_GT, 0, 0, 0, 0, 2, 0, 1)
B(gt_int_ln, ND_GT, 0, 0, 2, 0, 1, 0, 1)
B(gt_int_nl, ND_GT, 0, 0, 1, 0, 2, 0, 1)
B(gt_int_go, ND_GT, 0, 0, 3, 0, 0, 0, 1)
B(gt_int_og, ND_GT, 0, 0, 0, 0, 3, 0, 1)
B(gt_int_ok_long, ND_GT, 0, 0, 0, 0, 5, 2, 1)
B(gt_int_ko_long, ND_GT, 0, 0, 5, 2, 0, 0, 1)
B(gt_int_ok_short, ND_GT, 0, 0, 0, 0, 5, 8, 1)
B(gt_int_ko_short, ND_GT, 0, 0, 5, 8, 0, 0, 1)
B(gt_int_ok_uchar, ND_GT, 0, 0, 0, 0, 5, 7, 1)
B(gt_int_ko_uchar, ND_GT, 0, 0, 5, 7, 0, 0, 1)
B(gt_int_ok_bool, ND_GT, 0, 0, 0, 0, 5, 5, 1)
B(gt_int_ko_bool, ND_GT, 0, 0, 5, 5, 0, 0, 1)
B(gt_int_ok_uint, ND_GT, 0, 0, 0, 0, 5, 1, 1)
B(gt_int_ko_uint, ND_GT, 0, 0, 5, 1, 0, 0, 1)
B(gt_uint_plain, ND_GT, 1, 1, 0, 0, 0, 0, 0)
B(gt_uint_on, ND_GT, 1, 1, 0, 0, 1, 0, 1)
B(gt_uint_no, ND_GT, 1, 1, 1, 0, 0, 0, 1)
B(gt_uint_oo, ND_GT, 1, 1, 0, 0, 0, 0, 1)
B(gt_uint_lo, ND_GT, 1, 1, 2, 0, 0, 0, 1)
B(gt_uint_ol, ND_GT, 1, 1, 0, 0, 2, 0, 1)
B(gt_uint_ln, ND_GT, 1, 1, 2, 0, 1, 0, 1)
B(gt_uint_nl, ND_GT, 1, 1, 1, 0, 2, 0, 1)
B(gt_uint_go, ND_GT, 1, 1, 3, 0, 0, 0, 1)
B(gt_uint_og, ND_GT, 1, 1, 0, 0, 3, 0, 1)
B(gt_uint_ok_long, ND_GT, 1, 1, 0, 0, 5, 2, 1)
B(gt_uint_ko_long, ND_GT, 1, 1, 5, 2, 0, 0, 1)
B(gt_uint_ok_short, ND_GT, 1, 1, 0, 0, 5, 8, 1)
B(gt_uint_ko_short, ND_GT, 1, 1, 5, 8, 0, 0, 1)
B(gt_uint_ok_uchar, ND_GT, 1, 1, 0, 0, 5, 7, 1)
B(gt_uint_ko_uchar, ND_GT, 1, 1, 5, 7, 0, 0, 1)
B(gt_uint_ok_bool, ND_GT, 1, 1, 0, 0, 5, 5, 1)
B(gt_uint_ko_bool, ND_GT, 1, 1, 5, 5, 0, 0, 1)
B(gt_uint_ok_int, ND_GT, 1, 1, 0, 0, 5, 0, 1)
B(gt_uint_ko_int, ND_GT, 1, 1, 5, 0, 0, 0, 1)
B(gt_long_plain, ND_GT, 2, 2, 0, 0, 0, 0, 0)
B(gt_long_on, ND_GT, 2, 2, 0, 0, 1, 0, 1)
B(gt_long_no, ND_GT, 2, 2, 1, 0, 0, 0, 1)
B(gt_long_oo, ND_GT, 2, 2, 0, 0, 0, 0, 1)
B(gt_long_lo, ND_GT, 2, 2, 2, 0, 0, 0, 1)
B(gt_long_ol, ND_GT, 2, 2, 0, 0, 2, 0, 1)
B(gt_long_ln, ND_GT, 2, 2, 2, 0, 1, 0, 1)
B(gt_long_nl, ND_GT, 2, 2, 1, 0, 2, 0, 1)
B(gt_long_go, ND_GT, 2, 2, 3, 0, 0, 0, 1)
B(gt_long_og, ND_GT, 2, 2, 0, 0, 3, 0, 1)
B(gt_long_ok_int, ND_GT, 2, 2, 0, 0, 5, 0, 1)
B(gt_long_ko_int, ND_GT, 2, 2, 5, 0, 0, 0, 1)
B(gt_long_ok_uint, ND_GT, 2, 2, 0, 0, 5, 1, 1)
B(gt_long_ko_uint, ND_GT, 2, 2, 5, 1, 0, 0, 1)
B(gt_long_ok_short, ND_GT, 2, 2, 0, 0, 5, 8, 1)
B(gt_long_ko_short, ND_GT, 2, 2, 5, 8, 0, 0, 1)
B(gt_long_ok_uchar, ND_GT, 2, 2, 0, 0, 5, 7, 1)
B(gt_long_ko_uchar, ND_GT, 2, 2, 5, 7, 0, 0, 1)
B(gt_long_ok_bool, ND_GT, 2, 2, 0, 0, 5, 5, 1)
B(gt_long_ko_bool, ND_GT, 2, 2, 5, 5, 0, 0, 1)
B(gt_long_ok_ulong, ND_GT, 2, 2, 0, 0, 5, 3, 1)
B(gt_long_ko_ulong, ND_GT, 2, 2, 5, 3, 0, 0, 1)
B(gt_ulong_plain, ND_GT, 3, 3, 0, 0, 0, 0, 0)
B(gt_ulong_on, ND_GT, 3, 3, 0, 0, 1, 0, 1)
B(gt_ulong_no, ND_GT, 3, 3, 1, 0, 0, 0, 1)
B(gt_ulong_oo, ND_GT, 3, 3, 0, 0, 0, 0, 1)
B(gt_ulong_lo, ND_GT, 3, 3, 2, 0, 0, 0, 1)
B(gt_ulong_ol, ND_GT, 3, 3, 0, 0, 2, 0, 1)
B(gt_ulong_ln, ND_GT, 3, 3, 2, 0, 1, 0, 1)
B(gt_ulong_nl, ND_GT, 3, 3, 1, 0, 2, 0, 1)
B(gt_ulong_go, ND_GT, 3, 3, 3, 0, 0, 0, 1)
B(gt_ulong_og, ND_GT, 3, 3, 0, 0, 3, 0, 1)
B(gt_ulong_ok_int, ND_GT, 3, 3, 0, 0, 5, 0, 1)
B(gt_ulong_ko_int, ND_GT, 3, 3, 5, 0, 0, 0, 1)
B(gt_ulong_ok_uint, ND_GT, 3, 3, 0, 0, 5, 1, 1)
B(gt_ulong_ko_uint, ND_GT, 3, 3, 5, 1, 0, 0, 1)
B(gt_ulong_ok_short, ND_GT, 3, 3, 0, 0, 5, 8, 1)
B(gt_ulong_ko_short, ND_GT, 3, 3, 5, 8, 0, 0, 1)
B(gt_ulong_ok_uchar, ND_GT, 3, 3, 0, 0, 5, 7, 1)
B(gt_ulong_ko_uchar, ND_GT, 3, 3, 5, 7, 0, 0, 1)
B(gt_ulong_ok_bool, ND_GT, 3, 3, 0, 0, 5, 5, 1)
B(gt_ulong_ko_bool, ND_GT, 3, 3, 5, 5, 0, 0, 1)
B(gt_ulong_ok_long, ND_GT, 3, 3, 0, 0, 5, 2, 1)
B(gt_ulong_ko_long, ND_GT, 3, 3, 5, 2, 0, 0, 1)
B(ge_int_plain, ND_GE, 0, 0, 0, 0, 0, 0, 0)
B(ge_int_on, ND_GE, 0, 0, 0, 0, 1, 0, 1)
B(ge_int_no, ND_GE, 0, 0, 1, 0, 0, 0, 1)
B(ge_int_oo, ND_GE, 0, 0, 0, 0, 0, 0, 1)
B(ge_int_lo, ND_GE, 0, 0, 2, 0, 0, 0, 1)
B(ge_int_ol, ND_GE, 0, 0, 0, 0, 2, 0, 1)
B(ge_int_ln, ND_GE, 0, 0, 2, 0, 1, 0, 1)
B(ge_int_nl, ND_GE, 0, 0, 1, 0, 2, 0, 1)
B(ge_int_go, ND_GE, 0, 0, 3, 0, 0, 0, 1)
B(ge_int_og, ND_GE, 0, 0, 0, 0, 3, 0, 1)
B(ge_int_ok_long, ND_GE, 0, 0, 0, 0, 5, 2, 1)
B(ge_int_ko_long, ND_GE, 0, 0, 5, 2, 0, 0, 1)
B(ge_int_ok_short, ND_GE, 0, 0, 0, 0, 5, 8, 1)
B(ge_int_ko_short, ND_GE, 0, 0, 5, 8, 0, 0, 1)
B(ge_int_ok_uchar, ND_GE, 0, 0, 0, 0, 5, 7, 1)
B(ge_int_ko_uchar, ND_GE, 0, 0, 5, 7, 0, 0, 1)
B(ge_int_ok_bool, ND_GE, 0, 0, 0, 0, 5, 5, 1)
B(ge_int_ko_bool, ND_GE, 0, 0, 5, 5, 0, 0, 1)
B(ge_int_ok_uint, ND_GE, 0, 0, 0, 0, 5, 1, 1)
B(ge_int_ko_uint, ND_GE, 0, 0, 5, 1, 0, 0, 1)
B(ge_uint_plain, ND_GE, 1, 1, 0, 0, 0, 0, 0)
B(ge_uint_on, ND_GE, 1, 1, 0, 0, 1, 0, 1)
B(ge_uint_no, ND_GE, 1, 1, 1, 0, 0, 0, 1)
B(ge_uint_oo, ND_GE, 1, 1, 0, 0, 0, 0, 1)
B(ge_uint_lo, ND_GE, 1, 1, 2, 0, 0, 0, 1)
B(ge_uint_ol, ND_GE, 1, 1, 0, 0, 2, 0, 1)
B(ge_uint_ln, ND_GE, 1, 1, 2, 0, 1, 0, 1)
B(ge_uint_nl, ND_GE, 1, 1, 1, 0, 2, 0, 1)
B(ge_uint_go, ND_GE, 1, 1, 3, 0, 0, 0, 1)
B(ge_uint_og, ND_GE, 1, 1, 0, 0, 3, 0, 1)
B(ge_uint_ok_long, ND_GE, 1, 1, 0, 0, 5, 2, 1)
B(ge_uint_ko_long, ND_GE, 1, 1, 5, 2, 0, 0, 1)
B(ge_uint_ok_short, ND_GE, 1, 1, 0, 0, 5, 8, 1)
B(ge_uint_ko_short, ND_GE, 1, 1, 5, 8, 0, 0, 1)
B(ge_uint_ok_uchar, ND_GE, 1, 1, 0, 0, 5, 7, 1)
B(ge_uint_ko_uchar, ND_GE, 1, 1, 5, 7, 0, 0, 1)
B(ge_uint_ok_bool, ND_GE, 1, 1, 0, 0, 5, 5, 1)
B(ge_uint_ko_bool, ND_GE, 1, 1, 5, 5, 0, 0, 1)
B(ge_uint_ok_int, ND_GE, 1, 1, 0, 0, 5, 0, 1)
B(ge_uint_ko_int, ND_GE, 1, 1, 5, 0, 0, 0, 1)
B(ge_long_plain, ND_GE, 2, 2, 0, 0, 0, 0, 0)
B(ge_long_on, ND_GE, 2, 2, 0, 0, 1, 0, 1)
B(ge_long_no, ND_GE, 2, 2, 1, 0, 0, 0, 1)
B(ge_long_oo, ND_GE, 2, 2, 0, 0, 0, 0, 1)
B(ge_long_lo, ND_GE, 2, 2, 2, 0, 0, 0, 1)
B(ge_long_ol, ND_GE, 2, 2, 0, 0, 2, 0, 1)
B(ge_long_ln, ND_GE, 2, 2, 2, 0, 1, 0, 1)
B(ge_long_nl, ND_GE, 2, 2, 1, 0, 2, 0, 1)
B(ge_long_go, ND_GE, 2, 2, 3, 0, 0, 0, 1)
B(ge_long_og, ND_GE, 2, 2, 0, 0, 3, 0, 1)
B(ge_long_ok_int, ND_GE, 2, 2, 0, 0, 5, 0, 1)
B(ge_long_ko_int, ND_GE, 2, 2, 5, 0, 0, 0, 1)
B(ge_long_ok_uint, ND_GE, 2, 2, 0, 0, 5, 1, 1)
B(ge_long_ko_uint, ND_GE, 2, 2, 5, 1, 0, 0, 1)
B(ge_long_ok_short, ND_GE, 2, 2, 0, 0, 5, 8, 1)
B(ge_long_ko_short, ND_GE, 2, 2, 5, 8, 0, 0, 1)
B(ge_long_ok_uchar, ND_GE, 2, 2, 0, 0, 5, 7, 1)
B(ge_long_ko_uchar, ND_GE, 2, 2, 5, 7, 0, 0, 1)
B(ge_long_ok_bool, ND_GE, 2, 2, 0, 0, 5, 5, 1)
B(ge_long_ko_bool, ND_GE, 2, 2, 5, 5, 0, 0, 1)
B(ge_long_ok_ulong, ND_GE, 2, 2, 0, 0, 5, 3, 1)
B(ge_long_ko_ulong, ND_GE, 2, 2, 5, 3, 0, 0, 1)
B(ge_ulong_plain, ND_GE, 3, 3, 0, 0, 0, 0, 0)
B(ge_ulong_on, ND_GE, 3, 3, 0, 0, 1, 0, 1)
B(ge_ulong_no, ND_GE, 3, 3, 1, 0, 0, 0, 1)
B(ge_ulong_oo, ND_GE, 3, 3, 0, 0, 0, 0, 1)
B(ge_ulong_lo, ND_GE, 3, 3, 2, 0, 0, 0, 1)
B(ge_ulong_ol, ND_GE, 3, 3, 0, 0, 2, 0, 1)
B(ge_ulong_ln, ND_GE, 3, 3, 2, 0, 1, 0, 1)
B(ge_ulong_nl, ND_GE, 3, 3, 1, 0, 2, 0, 1)
B(ge_ulong_go, ND_GE, 3, 3, 3, 0, 0, 0, 1)
B(ge_ulong_og, ND_GE, 3, 3, 0, 0, 3, 0, 1)
B(ge_ulong_ok_int, ND_GE, 3, 3, 0, 0, 5, 0, 1)
B(ge_ulong_ko_int, ND_GE, 3, 3, 5, 0, 0, 0, 1)
B(ge_ulong_ok_uint, ND_GE, 3, 3, 0, 0, 5, 1, 1)
B(ge_ulong_ko_uint, ND_GE, 3, 3, 5, 1, 0, 0, 1)
B(ge_ulong_ok_short, ND_GE, 3, 3, 0, 0, 5, 8, 1)
B(ge_ulong_ko_short, ND_GE, 3, 3, 5, 8, 0, 0, 1)
B(ge_ulong_ok_uchar, ND_GE, 3, 3, 0, 0, 5, 7, 1)
B(ge_ulong_ko_uchar, ND_GE, 3, 3, 5, 7, 0, 0, 1)
B(ge_ulong_ok_bool, ND_GE, 3, 3, 0, 0, 5, 5, 1)
B(ge_ulong_ko_bool, ND_GE, 3, 3, 5, 5, 0, 0, 1)
B(ge_ulong_ok_long, ND_GE, 3, 3, 0, 0, 5, 2, 1)
B(ge_ulong_ko_long, ND_GE, 3, 3, 5, 2, 0, 0, 1)
B(div_int_plain, ND_DIV, 0, 0, 0, 0, 0, 0, 0)
B(div_int_on, ND_DIV, 0, 0, 0, 0, 1, 0, 1)
B(div_int_oo, ND_DIV, 0, 0, 0, 0, 0, 0, 1)
B(div_uint_plain, ND_DIV, 1, 1, 0, 0, 0, 0, 0)
B(div_uint_on, ND_DIV, 1, 1, 0, 0, 1, 0, 1)
B(div_uint_oo, ND_DIV, 1, 1, 0, 0, 0, 0, 1)
B(div_long_plain, ND_DIV, 2, 2, 0, 0, 0, 0, 0)
B(div_long_on, ND_DIV, 2, 2, 0, 0, 1, 0, 1)
B(div_long_oo, ND_DIV, 2, 2, 0, 0, 0, 0, 1)
B(div_ulong_plain, ND_DIV, 3, 3, 0, 0, 0, 0, 0)
B(div_ulong_on, ND_DIV, 3, 3, 0, 0, 1, 0, 1)
B(div_ulong_oo, ND_DIV, 3, 3, 0, 0, 0, 0, 1)
B(mod_int_plain, ND_MOD, 0, 0, 0, 0, 0, 0, 0)
B(mod_int_on, ND_MOD, 0, 0, 0, 0, 1, 0, 1)
B(mod_int_oo, ND_MOD, 0, 0, 0, 0, 0, 0, 1)
B(mod_uint_plain, ND_MOD, 1, 1, 0, 0, 0, 0, 0)
B(mod_uint_on, ND_MOD, 1, 1, 0, 0, 1, 0, 1)
B(mod_uint_oo, ND_MOD, 1, 1, 0, 0, 0, 0, 1)
B(mod_long_plain, ND_MOD, 2, 2, 0, 0, 0, 0, 0)
B(mod_long_on, ND_MOD, 2, 2, 0, 0, 1, 0, 1)
B(mod_long_oo, ND_MOD, 2, 2, 0, 0, 0, 0, 1)
B(mod_ulong_plain, ND_MOD, 3, 3, 0, 0, 0, 0, 0)
B(mod_ulong_on, ND_MOD, 3, 3, 0, 0, 1, 0, 1)
B(mod_ulong_oo, ND_MOD, 3, 3, 0, 0, 0, 0, 1)
B(shl_int_plain_int, ND_SHL, 0, 0, 0, 0, 0, 0, 0)
B(shl_int_on_int, ND_SHL, 0, 0, 0, 0, 1, 0, 1)
B(shl_int_oo_int, ND_SHL, 0, 0, 0, 0, 0, 0, 1)
B(shl_int_ol_int, ND_SHL, 0, 0, 0, 0, 2, 0, 1)
B(shl_int_plain_long, ND_SHL, 0, 2, 0, 0, 0, 0, 0)
B(shl_int_on_long, ND_SHL, 0, 2, 0, 0, 1, 0, 1)
B(shl_int_oo_long, ND_SHL, 0, 2, 0, 0, 0, 0, 1)
B(shl_int_ol_long, ND_SHL, 0, 2, 0, 0, 2, 0, 1)
B(shl_int_plain_uchar, ND_SHL, 0, 7, 0, 0, 0, 0, 0)
B(shl_int_on_uchar, ND_SHL, 0, 7, 0, 0, 1, 0, 1)
B(shl_int_oo_uchar, ND_SHL, 0, 7, 0, 0, 0, 0, 1)
B(shl_int_ol_uchar, ND_SHL, 0, 7, 0, 0, 2, 0, 1)
B(shl_int_plain_short, ND_SHL, 0, 8, 0, 0, 0, 0, 0)
B(shl_int_on_short, ND_SHL, 0, 8, 0, 0, 1, 0, 1)
B(shl_int_oo_short, ND_SHL, 0, 8, 0, 0, 0, 0, 1)
B(shl_int_ol_short, ND_SHL, 0, 8, 0, 0, 2, 0, 1)
B(shl_uint_plain_int, ND_SHL, 1, 0, 0, 0, 0, 0, 0)
B(shl_uint_on_int, ND_SHL, 1, 0, 0, 0, 1, 0, 1)
B(shl_uint_oo_int, ND_SHL, 1, 0, 0, 0, 0, 0, 1)
B(shl_uint_ol_int, ND_SHL, 1, 0, 0, 0, 2, 0, 1)
B(shl_uint_plain_long, ND_SHL, 1, 2, 0, 0, 0, 0, 0)
B(shl_uint_on_long, ND_SHL, 1, 2, 0, 0, 1, 0, 1)
B(shl_uint_oo_long, ND_SHL, 1, 2, 0, 0, 0, 0, 1)
B(shl_uint_ol_long, ND_SHL, 1, 2, 0, 0, 2, 0, 1)
B(shl_uint_plain_uchar, ND_SHL, 1, 7, 0, 0, 0, 0, 0)
B(shl_uint_on_uchar, ND_SHL, 1, 7, 0, 0, 1, 0, 1)
B(shl_uint_oo_uchar, ND_SHL, 1, 7, 0, 0, 0, 0, 1)
B(shl_uint_ol_uchar, ND_SHL, 1, 7, 0, 0, 2, 0, 1)
B(shl_uint_plain_short, ND_SHL, 1, 8, 0, 0, 0, 0, 0)
B(shl_uint_on_short, ND_SHL, 1, 8, 0, 0, 1, 0, 1)
B(shl_uint_oo_short, ND_SHL, 1, 8, 0, 0, 0, 0, 1)
B(shl_uint_ol_short, ND_SHL, 1, 8, 0, 0, 2, 0, 1)
B(shl_long_plain_int, ND_SHL, 2, 0, 0, 0, 0, 0, 0)
B(shl_long_on_int, ND_SHL, 2, 0, 0, 0, 1, 0, 1)
B(shl_long_oo_int, ND_SHL, 2, 0, 0, 0, 0, 0, 1)
B(shl_long_ol_int, ND_SHL, 2, 0, 0, 0, 2, 0, 1)
B(shl_long_plain_long, ND_SHL, 2, 2, 0, 0, 0, 0, 0)
B(shl_long_on_long, ND_SHL, 2, 2, 0, 0, 1, 0, 1)
B(shl_long_oo_long, ND_SHL, 2, 2, 0, 0, 0, 0, 1)
B(shl_long_ol_long, ND_SHL, 2, 2, 0, 0, 2, 0, 1)
B(shl_long_plain_uchar, ND_SHL, 2, 7, 0, 0, 0, 0, 0)
B(shl_long_on_uchar, ND_SHL, 2, 7, 0, 0, 1, 0, 1)
B(shl_long_oo_uchar, ND_SHL, 2, 7, 0, 0, 0, 0, 1)
B(shl_long_ol_uchar, ND_SHL, 2, 7, 0, 0, 2, 0, 1)
B(shl_long_plain_short, ND_SHL, 2, 8, 0, 0, 0, 0, 0)
B(shl_long_on_short, ND_SHL, 2, 8, 0, 0, 1, 0, 1)
B(shl_long_oo_short, ND_SHL, 2, 8, 0, 0, 0, 0, 1)
B(shl_long_ol_short, ND_SHL, 2, 8, 0, 0, 2, 0, 1)
B(shl_ulong_plain_int, ND_SHL, 3, 0, 0, 0, 0, 0, 0)
B(shl_ulong_on_int, ND_SHL, 3, 0, 0, 0, 1, 0, 1)
B(shl_ulong_oo_int, ND_SHL, 3, 0, 0, 0, 0, 0, 1)
B(shl_ulong_ol_int, ND_SHL, 3, 0, 0, 0, 2, 0, 1)
B(shl_ulong_plain_long, ND_SHL, 3, 2, 0, 0, 0, 0, 0)
B(shl_ulong_on_long, ND_SHL, 3, 2, 0, 0, 1, 0, 1)
B(shl_ulong_oo_long, ND_SHL, 3, 2, 0, 0, 0, 0, 1)
B(shl_ulong_ol_long, ND_SHL, 3, 2, 0, 0, 2, 0, 1)
B(shl_ulong_plain_uchar, ND_SHL, 3, 7, 0, 0, 0, 0, 0)
B(shl_ulong_on_uchar, ND_SHL, 3, 7, 0, 0, 1, 0, 1)
B(shl_ulong_oo_uchar, ND_SHL, 3, 7, 0, 0, 0, 0, 1)
B(shl_ulong_ol_uchar, ND_SHL, 3, 7, 0, 0, 2, 0, 1)
B(shl_ulong_plain_short, ND_SHL, 3, 8, 0, 0, 0, 0, 0)
B(shl_ulong_on_short, ND_SHL, 3, 8, 0, 0, 1, 0, 1)
B(shl_ulong_oo_short, ND_SHL, 3, 8, 0, 0, 0, 0, 1)
B(shl_ulong_ol_short, ND_SHL, 3, 8, 0, 0, 2, 0, 1)
B(shr_uint_plain_int, ND_SHR, 1, 0, 0, 0, 0, 0, 0)
B(shr_uint_on_int, ND_SHR, 1, 0, 0, 0, 1, 0, 1)
B(shr_uint_oo_int, ND_SHR, 1, 0, 0, 0, 0, 0, 1)
B(shr_uint_ol_int, ND_SHR, 1, 0, 0, 0, 2, 0, 1)
B(shr_uint_plain_long, ND_SHR, 1, 2, 0, 0, 0, 0, 0)
B(shr_uint_on_long, ND_SHR, 1, 2, 0, 0, 1, 0, 1)
B(shr_uint_oo_long, ND_SHR, 1, 2, 0, 0, 0, 0, 1)
B(shr_uint_ol_long, ND_SHR, 1, 2, 0, 0, 2, 0, 1)
B(shr_uint_plain_uchar, ND_SHR, 1, 7, 0, 0, 0, 0, 0)
B(shr_uint_on_uchar, ND_SHR, 1, 7, 0, 0, 1, 0, 1)
B(shr_uint_oo_uchar, ND_SHR, 1, 7, 0, 0, 0, 0, 1)
B(shr_uint_ol_uchar, ND_SHR, 1, 7, 0, 0, 2, 0, 1)
B(shr_uint_plain_short, ND_SHR, 1, 8, 0, 0, 0, 0, 0)
B(shr_uint_on_short, ND_SHR, 1, 8, 0, 0, 1, 0, 1)
B(shr_uint_oo_short, ND_SHR, 1, 8, 0, 0, 0, 0, 1)
B(shr_uint_ol_short, ND_SHR, 1, 8, 0, 0, 2, 0, 1)
B(shr_ulong_plain_int, ND_SHR, 3, 0, 0, 0, 0, 0, 0)
B(shr_ulong_on_int, ND_SHR, 3, 0, 0, 0, 1, 0, 1)
B(shr_ulong_oo_int, ND_SHR, 3, 0, 0, 0, 0, 0, 1)
B(shr_ulong_ol_int, ND_SHR, 3, 0, 0, 0, 2, 0, 1)
B(shr_ulong_plain_long, ND_SHR, 3, 2, 0, 0, 0, 0, 0)
B(shr_ulong_on_long, ND_SHR, 3, 2, 0, 0, 1, 0, 1)
B(shr_ulong_oo_long, ND_SHR, 3, 2, 0, 0, 0, 0, 1)
B(shr_ulong_ol_long, ND_SHR, 3, 2, 0, 0, 2, 0, 1)
B(shr_ulong_plain_uchar, ND_SHR, 3, 7, 0, 0, 0, 0, 0)
B(shr_ulong_on_uchar, ND_SHR, 3, 7, 0, 0, 1, 0, 1)
B(shr_ulong_oo_uchar, ND_SHR, 3, 7, 0, 0, 0, 0, 1)
B(shr_ulong_ol_uchar, ND_SHR, 3, 7, 0, 0, 2, 0, 1)
B(shr_ulong_plain_short, ND_SHR, 3, 8, 0, 0, 0, 0, 0)
B(shr_ulong_on_short, ND_SHR, 3, 8, 0, 0, 1, 0, 1)
B(shr_ulong_oo_short, ND_SHR, 3, 8, 0, 0, 0, 0, 1)
B(shr_ulong_ol_short, ND_SHR, 3, 8, 0, 0, 2, 0, 1)
B(sar_int_plain_int, ND_SAR, 0, 0, 0, 0, 0, 0, 0)
B(sar_int_on_int, ND_SAR, 0, 0, 0, 0, 1, 0, 1)
B(sar_int_oo_int, ND_SAR, 0, 0, 0, 0, 0, 0, 1)
B(sar_int_ol_int, ND_SAR, 0, 0, 0, 0, 2, 0, 1)
B(sar_int_plain_long, ND_SAR, 0, 2, 0, 0, 0, 0, 0)
B(sar_int_on_long, ND_SAR, 0, 2, 0, 0, 1, 0, 1)
B(sar_int_oo_long, ND_SAR, 0, 2, 0, 0, 0, 0, 1)
B(sar_int_ol_long, ND_SAR, 0, 2, 0, 0, 2, 0, 1)
B(sar_int_plain_uchar, ND_SAR, 0, 7, 0, 0, 0, 0, 0)
B(sar_int_on_uchar, ND_SAR, 0, 7, 0, 0, 1, 0, 1)
B(sar_int_oo_uchar, ND_SAR, 0, 7, 0, 0, 0, 0, 1)
B(sar_int_ol_uchar, ND_SAR, 0, 7, 0, 0, 2, 0, 1)
B(sar_int_plain_short, ND_SAR, 0, 8, 0, 0, 0, 0, 0)
B(sar_int_on_short, ND_SAR, 0, 8, 0, 0, 1, 0, 1)
B(sar_int_oo_short, ND_SAR, 0, 8, 0, 0, 0, 0, 1)
B(sar_int_ol_short, ND_SAR, 0, 8, 0, 0, 2, 0, 1)
B(sar_long_plain_int, ND_SAR, 2, 0, 0, 0, 0, 0, 0)
B(sar_long_on_int, ND_SAR, 2, 0, 0, 0, 1, 0, 1)
B(sar_long_oo_int, ND_SAR, 2, 0, 0, 0, 0, 0, 1)
B(sar_long_ol_int, ND_SAR, 2, 0, 0, 0, 2, 0, 1)
B(sar_long_plain_long, ND_SAR, 2, 2, 0, 0, 0, 0, 0)
B(sar_long_on_long, ND_SAR, 2, 2, 0, 0, 1, 0, 1)
B(sar_long_oo_long, ND_SAR, 2, 2, 0, 0, 0, 0, 1)
B(sar_long_ol_long, ND_SAR, 2, 2, 0, 0, 2, 0, 1)
B(sar_long_plain_uchar, ND_SAR, 2, 7, 0, 0, 0, 0, 0)
B(sar_long_on_uchar, ND_SAR, 2, 7, 0, 0, 1, 0, 1)
B(sar_long_oo_uchar, ND_SAR, 2, 7, 0, 0, 0, 0, 1)
B(sar_long_ol_uchar, ND_SAR, 2, 7, 0, 0, 2, 0, 1)
B(sar_long_plain_short, ND_SAR, 2, 8, 0, 0, 0, 0, 0)
B(sar_long_on_short, ND_SAR, 2, 8, 0, 0, 1, 0, 1)
B(sar_long_oo_short, ND_SAR, 2, 8, 0, 0, 0, 0, 1)
B(sar_long_ol_short, ND_SAR, 2, 8, 0, 0, 2, 0, 1)
