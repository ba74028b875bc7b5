// generated by props/C10.py
AS(read_deref_bool, M_READ, 0, L_DEREF, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(read_deref_bool_plain, M_READ, 0, L_DEREF, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(asg_deref_bool_o, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_deref_bool_n, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_deref_bool_l, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_deref_bool_klong, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 2, false, true)
AS(asg_deref_bool_kuchar, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 7, false, true)
AS(asg_deref_bool_kint, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 0, false, true)
AS(asg_deref_bool_o_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_deref_bool_n_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_deref_bool_l_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(asg_deref_bool_klong_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 2, true, true)
AS(asg_deref_bool_kuchar_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 7, true, true)
AS(asg_deref_bool_kint_void, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 5, 5, 0, true, true)
AS(asg_deref_bool_plain, M_ASSIGN, 0, L_DEREF, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(read_mem_bool, M_READ, 0, L_MEM, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(read_mem_bool_plain, M_READ, 0, L_MEM, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(asg_mem_bool_o, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mem_bool_n, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_mem_bool_l, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_mem_bool_klong, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 2, false, true)
AS(asg_mem_bool_kuchar, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 7, false, true)
AS(asg_mem_bool_kint, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 0, false, true)
AS(asg_mem_bool_o_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_mem_bool_n_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_mem_bool_l_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(asg_mem_bool_klong_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 2, true, true)
AS(asg_mem_bool_kuchar_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 7, true, true)
AS(asg_mem_bool_kint_void, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 5, 5, 0, true, true)
AS(asg_mem_bool_plain, M_ASSIGN, 0, L_MEM, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(read_mvar_bool, M_READ, 0, L_MVAR, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mvar_bool_o, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mvar_bool_n, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_mvar_bool_l, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_mvar_bool_klong, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 2, false, true)
AS(asg_mvar_bool_kuchar, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 7, false, true)
AS(asg_mvar_bool_kint, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 0, false, true)
AS(asg_mvar_bool_o_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_mvar_bool_n_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_mvar_bool_l_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(asg_mvar_bool_klong_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 2, true, true)
AS(asg_mvar_bool_kuchar_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 7, true, true)
AS(asg_mvar_bool_kint_void, M_ASSIGN, 0, L_MVAR, 5, -1, 0, 8, 5, 5, 0, true, true)
AS(read_mglb_bool, M_READ, 0, L_MGLB, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mglb_bool_o, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mglb_bool_n, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_mglb_bool_l, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_mglb_bool_o_void, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_mglb_bool_n_void, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_mglb_bool_l_void, M_ASSIGN, 0, L_MGLB, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(read_ofs_bool, M_READ, 0, L_OFS, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_ofs_bool_o, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_ofs_bool_n, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_ofs_bool_l, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_ofs_bool_o_void, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_ofs_bool_n_void, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_ofs_bool_l_void, M_ASSIGN, 0, L_OFS, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(read_mofs_bool, M_READ, 0, L_MOFS, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mofs_bool_o, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_mofs_bool_n, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_mofs_bool_l, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_mofs_bool_klong, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 2, false, true)
AS(asg_mofs_bool_kuchar, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 7, false, true)
AS(asg_mofs_bool_kint, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 0, false, true)
AS(asg_mofs_bool_o_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_mofs_bool_n_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_mofs_bool_l_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(asg_mofs_bool_klong_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 2, true, true)
AS(asg_mofs_bool_kuchar_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 7, true, true)
AS(asg_mofs_bool_kint_void, M_ASSIGN, 0, L_MOFS, 5, -1, 0, 8, 5, 5, 0, true, true)
AS(read_loc_bool, M_READ, 0, L_LOC, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(read_loc_bool_plain, M_READ, 0, L_LOC, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(asg_loc_bool_o, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_loc_bool_n, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_loc_bool_l, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_loc_bool_klong, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 2, false, true)
AS(asg_loc_bool_kuchar, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 7, false, true)
AS(asg_loc_bool_kint, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 0, false, true)
AS(asg_loc_bool_o_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_loc_bool_n_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_loc_bool_l_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(asg_loc_bool_klong_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 2, true, true)
AS(asg_loc_bool_kuchar_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 7, true, true)
AS(asg_loc_bool_kint_void, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 5, 5, 0, true, true)
AS(asg_loc_bool_plain, M_ASSIGN, 0, L_LOC, 5, -1, 0, 8, 0, 5, 0, false, false)
AS(read_glb_bool, M_READ, 0, L_GLB, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_glb_bool_o, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 0, 5, 0, false, true)
AS(asg_glb_bool_n, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 1, 5, 0, false, true)
AS(asg_glb_bool_l, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 2, 5, 0, false, true)
AS(asg_glb_bool_o_void, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 0, 5, 0, true, true)
AS(asg_glb_bool_n_void, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 1, 5, 0, true, true)
AS(asg_glb_bool_l_void, M_ASSIGN, 0, L_GLB, 5, -1, 0, 8, 2, 5, 0, true, true)
AS(read_deref_char, M_READ, 0, L_DEREF, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(read_deref_char_plain, M_READ, 0, L_DEREF, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(asg_deref_char_o, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_deref_char_n, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_deref_char_l, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_deref_char_klong, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 2, false, true)
AS(asg_deref_char_kuchar, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 7, false, true)
AS(asg_deref_char_kint, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 0, false, true)
AS(asg_deref_char_o_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_deref_char_n_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_deref_char_l_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(asg_deref_char_klong_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 2, true, true)
AS(asg_deref_char_kuchar_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 7, true, true)
AS(asg_deref_char_kint_void, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 5, 6, 0, true, true)
AS(asg_deref_char_plain, M_ASSIGN, 0, L_DEREF, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(read_mem_char, M_READ, 0, L_MEM, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(read_mem_char_plain, M_READ, 0, L_MEM, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(asg_mem_char_o, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mem_char_n, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_mem_char_l, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_mem_char_klong, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 2, false, true)
AS(asg_mem_char_kuchar, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 7, false, true)
AS(asg_mem_char_kint, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 0, false, true)
AS(asg_mem_char_o_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_mem_char_n_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_mem_char_l_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(asg_mem_char_klong_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 2, true, true)
AS(asg_mem_char_kuchar_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 7, true, true)
AS(asg_mem_char_kint_void, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 5, 6, 0, true, true)
AS(asg_mem_char_plain, M_ASSIGN, 0, L_MEM, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(read_mvar_char, M_READ, 0, L_MVAR, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mvar_char_o, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mvar_char_n, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_mvar_char_l, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_mvar_char_klong, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 2, false, true)
AS(asg_mvar_char_kuchar, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 7, false, true)
AS(asg_mvar_char_kint, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 0, false, true)
AS(asg_mvar_char_o_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_mvar_char_n_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_mvar_char_l_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(asg_mvar_char_klong_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 2, true, true)
AS(asg_mvar_char_kuchar_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 7, true, true)
AS(asg_mvar_char_kint_void, M_ASSIGN, 0, L_MVAR, 6, -1, 0, 8, 5, 6, 0, true, true)
AS(read_mglb_char, M_READ, 0, L_MGLB, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mglb_char_o, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mglb_char_n, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_mglb_char_l, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_mglb_char_o_void, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_mglb_char_n_void, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_mglb_char_l_void, M_ASSIGN, 0, L_MGLB, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(read_ofs_char, M_READ, 0, L_OFS, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_ofs_char_o, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_ofs_char_n, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_ofs_char_l, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_ofs_char_o_void, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_ofs_char_n_void, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_ofs_char_l_void, M_ASSIGN, 0, L_OFS, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(read_mofs_char, M_READ, 0, L_MOFS, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mofs_char_o, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_mofs_char_n, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_mofs_char_l, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_mofs_char_klong, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 2, false, true)
AS(asg_mofs_char_kuchar, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 7, false, true)
AS(asg_mofs_char_kint, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 0, false, true)
AS(asg_mofs_char_o_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_mofs_char_n_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_mofs_char_l_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(asg_mofs_char_klong_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 2, true, true)
AS(asg_mofs_char_kuchar_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 7, true, true)
AS(asg_mofs_char_kint_void, M_ASSIGN, 0, L_MOFS, 6, -1, 0, 8, 5, 6, 0, true, true)
AS(read_loc_char, M_READ, 0, L_LOC, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(read_loc_char_plain, M_READ, 0, L_LOC, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(asg_loc_char_o, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_loc_char_n, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_loc_char_l, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_loc_char_klong, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 2, false, true)
AS(asg_loc_char_kuchar, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 7, false, true)
AS(asg_loc_char_kint, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 0, false, true)
AS(asg_loc_char_o_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_loc_char_n_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_loc_char_l_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(asg_loc_char_klong_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 2, true, true)
AS(asg_loc_char_kuchar_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 7, true, true)
AS(asg_loc_char_kint_void, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 5, 6, 0, true, true)
AS(asg_loc_char_plain, M_ASSIGN, 0, L_LOC, 6, -1, 0, 8, 0, 6, 0, false, false)
AS(read_glb_char, M_READ, 0, L_GLB, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_glb_char_o, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 0, 6, 0, false, true)
AS(asg_glb_char_n, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 1, 6, 0, false, true)
AS(asg_glb_char_l, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 2, 6, 0, false, true)
AS(asg_glb_char_o_void, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 0, 6, 0, true, true)
AS(asg_glb_char_n_void, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 1, 6, 0, true, true)
AS(asg_glb_char_l_void, M_ASSIGN, 0, L_GLB, 6, -1, 0, 8, 2, 6, 0, true, true)
AS(read_deref_uchar, M_READ, 0, L_DEREF, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(read_deref_uchar_plain, M_READ, 0, L_DEREF, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(asg_deref_uchar_o, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_deref_uchar_n, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_deref_uchar_l, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_deref_uchar_klong, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 5, 7, 2, false, true)
AS(asg_deref_uchar_kint, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 5, 7, 0, false, true)
AS(asg_deref_uchar_o_void, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_deref_uchar_n_void, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_deref_uchar_l_void, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(asg_deref_uchar_klong_void, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 5, 7, 2, true, true)
AS(asg_deref_uchar_kint_void, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 5, 7, 0, true, true)
AS(asg_deref_uchar_plain, M_ASSIGN, 0, L_DEREF, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(read_mem_uchar, M_READ, 0, L_MEM, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(read_mem_uchar_plain, M_READ, 0, L_MEM, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(asg_mem_uchar_o, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mem_uchar_n, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_mem_uchar_l, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_mem_uchar_klong, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 5, 7, 2, false, true)
AS(asg_mem_uchar_kint, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 5, 7, 0, false, true)
AS(asg_mem_uchar_o_void, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_mem_uchar_n_void, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_mem_uchar_l_void, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(asg_mem_uchar_klong_void, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 5, 7, 2, true, true)
AS(asg_mem_uchar_kint_void, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 5, 7, 0, true, true)
AS(asg_mem_uchar_plain, M_ASSIGN, 0, L_MEM, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(read_mvar_uchar, M_READ, 0, L_MVAR, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mvar_uchar_o, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mvar_uchar_n, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_mvar_uchar_l, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_mvar_uchar_klong, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 5, 7, 2, false, true)
AS(asg_mvar_uchar_kint, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 5, 7, 0, false, true)
AS(asg_mvar_uchar_o_void, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_mvar_uchar_n_void, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_mvar_uchar_l_void, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(asg_mvar_uchar_klong_void, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 5, 7, 2, true, true)
AS(asg_mvar_uchar_kint_void, M_ASSIGN, 0, L_MVAR, 7, -1, 0, 8, 5, 7, 0, true, true)
AS(read_mglb_uchar, M_READ, 0, L_MGLB, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mglb_uchar_o, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mglb_uchar_n, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_mglb_uchar_l, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_mglb_uchar_o_void, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_mglb_uchar_n_void, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_mglb_uchar_l_void, M_ASSIGN, 0, L_MGLB, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(read_ofs_uchar, M_READ, 0, L_OFS, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_ofs_uchar_o, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_ofs_uchar_n, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_ofs_uchar_l, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_ofs_uchar_o_void, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_ofs_uchar_n_void, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_ofs_uchar_l_void, M_ASSIGN, 0, L_OFS, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(read_mofs_uchar, M_READ, 0, L_MOFS, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mofs_uchar_o, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_mofs_uchar_n, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_mofs_uchar_l, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_mofs_uchar_klong, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 5, 7, 2, false, true)
AS(asg_mofs_uchar_kint, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 5, 7, 0, false, true)
AS(asg_mofs_uchar_o_void, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_mofs_uchar_n_void, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_mofs_uchar_l_void, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(asg_mofs_uchar_klong_void, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 5, 7, 2, true, true)
AS(asg_mofs_uchar_kint_void, M_ASSIGN, 0, L_MOFS, 7, -1, 0, 8, 5, 7, 0, true, true)
AS(read_loc_uchar, M_READ, 0, L_LOC, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(read_loc_uchar_plain, M_READ, 0, L_LOC, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(asg_loc_uchar_o, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_loc_uchar_n, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_loc_uchar_l, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_loc_uchar_klong, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 5, 7, 2, false, true)
AS(asg_loc_uchar_kint, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 5, 7, 0, false, true)
AS(asg_loc_uchar_o_void, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_loc_uchar_n_void, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_loc_uchar_l_void, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(asg_loc_uchar_klong_void, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 5, 7, 2, true, true)
AS(asg_loc_uchar_kint_void, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 5, 7, 0, true, true)
AS(asg_loc_uchar_plain, M_ASSIGN, 0, L_LOC, 7, -1, 0, 8, 0, 7, 0, false, false)
AS(read_glb_uchar, M_READ, 0, L_GLB, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_glb_uchar_o, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 0, 7, 0, false, true)
AS(asg_glb_uchar_n, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 1, 7, 0, false, true)
AS(asg_glb_uchar_l, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 2, 7, 0, false, true)
AS(asg_glb_uchar_o_void, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 0, 7, 0, true, true)
AS(asg_glb_uchar_n_void, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 1, 7, 0, true, true)
AS(asg_glb_uchar_l_void, M_ASSIGN, 0, L_GLB, 7, -1, 0, 8, 2, 7, 0, true, true)
AS(read_deref_short, M_READ, 0, L_DEREF, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(read_deref_short_plain, M_READ, 0, L_DEREF, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(asg_deref_short_o, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_deref_short_n, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_deref_short_l, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_deref_short_klong, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 2, false, true)
AS(asg_deref_short_kuchar, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 7, false, true)
AS(asg_deref_short_kint, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 0, false, true)
AS(asg_deref_short_o_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_deref_short_n_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_deref_short_l_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(asg_deref_short_klong_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 2, true, true)
AS(asg_deref_short_kuchar_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 7, true, true)
AS(asg_deref_short_kint_void, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 5, 8, 0, true, true)
AS(asg_deref_short_plain, M_ASSIGN, 0, L_DEREF, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(read_mem_short, M_READ, 0, L_MEM, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(read_mem_short_plain, M_READ, 0, L_MEM, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(asg_mem_short_o, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mem_short_n, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_mem_short_l, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_mem_short_klong, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 2, false, true)
AS(asg_mem_short_kuchar, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 7, false, true)
AS(asg_mem_short_kint, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 0, false, true)
AS(asg_mem_short_o_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_mem_short_n_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_mem_short_l_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(asg_mem_short_klong_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 2, true, true)
AS(asg_mem_short_kuchar_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 7, true, true)
AS(asg_mem_short_kint_void, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 5, 8, 0, true, true)
AS(asg_mem_short_plain, M_ASSIGN, 0, L_MEM, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(read_mvar_short, M_READ, 0, L_MVAR, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mvar_short_o, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mvar_short_n, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_mvar_short_l, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_mvar_short_klong, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 2, false, true)
AS(asg_mvar_short_kuchar, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 7, false, true)
AS(asg_mvar_short_kint, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 0, false, true)
AS(asg_mvar_short_o_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_mvar_short_n_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_mvar_short_l_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(asg_mvar_short_klong_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 2, true, true)
AS(asg_mvar_short_kuchar_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 7, true, true)
AS(asg_mvar_short_kint_void, M_ASSIGN, 0, L_MVAR, 8, -1, 0, 8, 5, 8, 0, true, true)
AS(read_mglb_short, M_READ, 0, L_MGLB, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mglb_short_o, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mglb_short_n, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_mglb_short_l, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_mglb_short_o_void, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_mglb_short_n_void, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_mglb_short_l_void, M_ASSIGN, 0, L_MGLB, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(read_ofs_short, M_READ, 0, L_OFS, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_ofs_short_o, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_ofs_short_n, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_ofs_short_l, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_ofs_short_o_void, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_ofs_short_n_void, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_ofs_short_l_void, M_ASSIGN, 0, L_OFS, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(read_mofs_short, M_READ, 0, L_MOFS, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mofs_short_o, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_mofs_short_n, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_mofs_short_l, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_mofs_short_klong, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 2, false, true)
AS(asg_mofs_short_kuchar, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 7, false, true)
AS(asg_mofs_short_kint, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 0, false, true)
AS(asg_mofs_short_o_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_mofs_short_n_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_mofs_short_l_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(asg_mofs_short_klong_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 2, true, true)
AS(asg_mofs_short_kuchar_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 7, true, true)
AS(asg_mofs_short_kint_void, M_ASSIGN, 0, L_MOFS, 8, -1, 0, 8, 5, 8, 0, true, true)
AS(read_loc_short, M_READ, 0, L_LOC, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(read_loc_short_plain, M_READ, 0, L_LOC, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(asg_loc_short_o, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_loc_short_n, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_loc_short_l, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_loc_short_klong, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 2, false, true)
AS(asg_loc_short_kuchar, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 7, false, true)
AS(asg_loc_short_kint, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 0, false, true)
AS(asg_loc_short_o_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_loc_short_n_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_loc_short_l_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(asg_loc_short_klong_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 2, true, true)
AS(asg_loc_short_kuchar_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 7, true, true)
AS(asg_loc_short_kint_void, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 5, 8, 0, true, true)
AS(asg_loc_short_plain, M_ASSIGN, 0, L_LOC, 8, -1, 0, 8, 0, 8, 0, false, false)
AS(read_glb_short, M_READ, 0, L_GLB, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_glb_short_o, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 0, 8, 0, false, true)
AS(asg_glb_short_n, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 1, 8, 0, false, true)
AS(asg_glb_short_l, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 2, 8, 0, false, true)
AS(asg_glb_short_o_void, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 0, 8, 0, true, true)
AS(asg_glb_short_n_void, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 1, 8, 0, true, true)
AS(asg_glb_short_l_void, M_ASSIGN, 0, L_GLB, 8, -1, 0, 8, 2, 8, 0, true, true)
AS(read_deref_ushort, M_READ, 0, L_DEREF, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(read_deref_ushort_plain, M_READ, 0, L_DEREF, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(asg_deref_ushort_o, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_deref_ushort_n, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_deref_ushort_l, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_deref_ushort_klong, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 2, false, true)
AS(asg_deref_ushort_kuchar, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 7, false, true)
AS(asg_deref_ushort_kint, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 0, false, true)
AS(asg_deref_ushort_o_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_deref_ushort_n_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_deref_ushort_l_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(asg_deref_ushort_klong_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 2, true, true)
AS(asg_deref_ushort_kuchar_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 7, true, true)
AS(asg_deref_ushort_kint_void, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 5, 9, 0, true, true)
AS(asg_deref_ushort_plain, M_ASSIGN, 0, L_DEREF, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(read_mem_ushort, M_READ, 0, L_MEM, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(read_mem_ushort_plain, M_READ, 0, L_MEM, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(asg_mem_ushort_o, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mem_ushort_n, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_mem_ushort_l, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_mem_ushort_klong, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 2, false, true)
AS(asg_mem_ushort_kuchar, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 7, false, true)
AS(asg_mem_ushort_kint, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 0, false, true)
AS(asg_mem_ushort_o_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_mem_ushort_n_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_mem_ushort_l_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(asg_mem_ushort_klong_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 2, true, true)
AS(asg_mem_ushort_kuchar_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 7, true, true)
AS(asg_mem_ushort_kint_void, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 5, 9, 0, true, true)
AS(asg_mem_ushort_plain, M_ASSIGN, 0, L_MEM, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(read_mvar_ushort, M_READ, 0, L_MVAR, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mvar_ushort_o, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mvar_ushort_n, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_mvar_ushort_l, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_mvar_ushort_klong, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 2, false, true)
AS(asg_mvar_ushort_kuchar, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 7, false, true)
AS(asg_mvar_ushort_kint, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 0, false, true)
AS(asg_mvar_ushort_o_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_mvar_ushort_n_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_mvar_ushort_l_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(asg_mvar_ushort_klong_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 2, true, true)
AS(asg_mvar_ushort_kuchar_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 7, true, true)
AS(asg_mvar_ushort_kint_void, M_ASSIGN, 0, L_MVAR, 9, -1, 0, 8, 5, 9, 0, true, true)
AS(read_mglb_ushort, M_READ, 0, L_MGLB, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mglb_ushort_o, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mglb_ushort_n, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_mglb_ushort_l, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_mglb_ushort_o_void, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_mglb_ushort_n_void, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_mglb_ushort_l_void, M_ASSIGN, 0, L_MGLB, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(read_ofs_ushort, M_READ, 0, L_OFS, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_ofs_ushort_o, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_ofs_ushort_n, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_ofs_ushort_l, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_ofs_ushort_o_void, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_ofs_ushort_n_void, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_ofs_ushort_l_void, M_ASSIGN, 0, L_OFS, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(read_mofs_ushort, M_READ, 0, L_MOFS, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mofs_ushort_o, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_mofs_ushort_n, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_mofs_ushort_l, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_mofs_ushort_klong, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 2, false, true)
AS(asg_mofs_ushort_kuchar, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 7, false, true)
AS(asg_mofs_ushort_kint, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 0, false, true)
AS(asg_mofs_ushort_o_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_mofs_ushort_n_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_mofs_ushort_l_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(asg_mofs_ushort_klong_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 2, true, true)
AS(asg_mofs_ushort_kuchar_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 7, true, true)
AS(asg_mofs_ushort_kint_void, M_ASSIGN, 0, L_MOFS, 9, -1, 0, 8, 5, 9, 0, true, true)
AS(read_loc_ushort, M_READ, 0, L_LOC, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(read_loc_ushort_plain, M_READ, 0, L_LOC, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(asg_loc_ushort_o, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_loc_ushort_n, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_loc_ushort_l, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_loc_ushort_klong, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 2, false, true)
AS(asg_loc_ushort_kuchar, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 7, false, true)
AS(asg_loc_ushort_kint, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 0, false, true)
AS(asg_loc_ushort_o_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_loc_ushort_n_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_loc_ushort_l_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(asg_loc_ushort_klong_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 2, true, true)
AS(asg_loc_ushort_kuchar_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 7, true, true)
AS(asg_loc_ushort_kint_void, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 5, 9, 0, true, true)
AS(asg_loc_ushort_plain, M_ASSIGN, 0, L_LOC, 9, -1, 0, 8, 0, 9, 0, false, false)
AS(read_glb_ushort, M_READ, 0, L_GLB, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_glb_ushort_o, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 0, 9, 0, false, true)
AS(asg_glb_ushort_n, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 1, 9, 0, false, true)
AS(asg_glb_ushort_l, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 2, 9, 0, false, true)
AS(asg_glb_ushort_o_void, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 0, 9, 0, true, true)
AS(asg_glb_ushort_n_void, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 1, 9, 0, true, true)
AS(asg_glb_ushort_l_void, M_ASSIGN, 0, L_GLB, 9, -1, 0, 8, 2, 9, 0, true, true)
AS(read_deref_int, M_READ, 0, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(read_deref_int_plain, M_READ, 0, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(asg_deref_int_o, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_deref_int_n, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_deref_int_l, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_deref_int_klong, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 5, 0, 2, false, true)
AS(asg_deref_int_kuchar, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 5, 0, 7, false, true)
AS(asg_deref_int_o_void, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_deref_int_n_void, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_deref_int_l_void, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(asg_deref_int_klong_void, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 5, 0, 2, true, true)
AS(asg_deref_int_kuchar_void, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 5, 0, 7, true, true)
AS(asg_deref_int_plain, M_ASSIGN, 0, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(read_mem_int, M_READ, 0, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(read_mem_int_plain, M_READ, 0, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(asg_mem_int_o, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mem_int_n, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_mem_int_l, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_mem_int_klong, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 5, 0, 2, false, true)
AS(asg_mem_int_kuchar, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 5, 0, 7, false, true)
AS(asg_mem_int_o_void, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_mem_int_n_void, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_mem_int_l_void, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(asg_mem_int_klong_void, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 5, 0, 2, true, true)
AS(asg_mem_int_kuchar_void, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 5, 0, 7, true, true)
AS(asg_mem_int_plain, M_ASSIGN, 0, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(read_mvar_int, M_READ, 0, L_MVAR, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mvar_int_o, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mvar_int_n, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_mvar_int_l, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_mvar_int_klong, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 5, 0, 2, false, true)
AS(asg_mvar_int_kuchar, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 5, 0, 7, false, true)
AS(asg_mvar_int_o_void, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_mvar_int_n_void, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_mvar_int_l_void, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(asg_mvar_int_klong_void, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 5, 0, 2, true, true)
AS(asg_mvar_int_kuchar_void, M_ASSIGN, 0, L_MVAR, 0, -1, 0, 8, 5, 0, 7, true, true)
AS(read_mglb_int, M_READ, 0, L_MGLB, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mglb_int_o, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mglb_int_n, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_mglb_int_l, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_mglb_int_o_void, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_mglb_int_n_void, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_mglb_int_l_void, M_ASSIGN, 0, L_MGLB, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(read_ofs_int, M_READ, 0, L_OFS, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_ofs_int_o, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_ofs_int_n, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_ofs_int_l, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_ofs_int_o_void, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_ofs_int_n_void, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_ofs_int_l_void, M_ASSIGN, 0, L_OFS, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(read_mofs_int, M_READ, 0, L_MOFS, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mofs_int_o, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_mofs_int_n, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_mofs_int_l, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_mofs_int_klong, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 5, 0, 2, false, true)
AS(asg_mofs_int_kuchar, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 5, 0, 7, false, true)
AS(asg_mofs_int_o_void, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_mofs_int_n_void, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_mofs_int_l_void, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(asg_mofs_int_klong_void, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 5, 0, 2, true, true)
AS(asg_mofs_int_kuchar_void, M_ASSIGN, 0, L_MOFS, 0, -1, 0, 8, 5, 0, 7, true, true)
AS(read_loc_int, M_READ, 0, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(read_loc_int_plain, M_READ, 0, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(asg_loc_int_o, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_loc_int_n, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_loc_int_l, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_loc_int_klong, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 5, 0, 2, false, true)
AS(asg_loc_int_kuchar, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 5, 0, 7, false, true)
AS(asg_loc_int_o_void, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_loc_int_n_void, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_loc_int_l_void, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(asg_loc_int_klong_void, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 5, 0, 2, true, true)
AS(asg_loc_int_kuchar_void, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 5, 0, 7, true, true)
AS(asg_loc_int_plain, M_ASSIGN, 0, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(read_glb_int, M_READ, 0, L_GLB, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_glb_int_o, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(asg_glb_int_n, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(asg_glb_int_l, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(asg_glb_int_o_void, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(asg_glb_int_n_void, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(asg_glb_int_l_void, M_ASSIGN, 0, L_GLB, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(read_deref_uint, M_READ, 0, L_DEREF, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(read_deref_uint_plain, M_READ, 0, L_DEREF, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(asg_deref_uint_o, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_deref_uint_n, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_deref_uint_l, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_deref_uint_klong, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 2, false, true)
AS(asg_deref_uint_kuchar, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 7, false, true)
AS(asg_deref_uint_kint, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 0, false, true)
AS(asg_deref_uint_o_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_deref_uint_n_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_deref_uint_l_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(asg_deref_uint_klong_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 2, true, true)
AS(asg_deref_uint_kuchar_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 7, true, true)
AS(asg_deref_uint_kint_void, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 5, 1, 0, true, true)
AS(asg_deref_uint_plain, M_ASSIGN, 0, L_DEREF, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(read_mem_uint, M_READ, 0, L_MEM, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(read_mem_uint_plain, M_READ, 0, L_MEM, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(asg_mem_uint_o, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mem_uint_n, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_mem_uint_l, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_mem_uint_klong, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 2, false, true)
AS(asg_mem_uint_kuchar, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 7, false, true)
AS(asg_mem_uint_kint, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 0, false, true)
AS(asg_mem_uint_o_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_mem_uint_n_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_mem_uint_l_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(asg_mem_uint_klong_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 2, true, true)
AS(asg_mem_uint_kuchar_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 7, true, true)
AS(asg_mem_uint_kint_void, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 5, 1, 0, true, true)
AS(asg_mem_uint_plain, M_ASSIGN, 0, L_MEM, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(read_mvar_uint, M_READ, 0, L_MVAR, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mvar_uint_o, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mvar_uint_n, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_mvar_uint_l, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_mvar_uint_klong, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 2, false, true)
AS(asg_mvar_uint_kuchar, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 7, false, true)
AS(asg_mvar_uint_kint, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 0, false, true)
AS(asg_mvar_uint_o_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_mvar_uint_n_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_mvar_uint_l_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(asg_mvar_uint_klong_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 2, true, true)
AS(asg_mvar_uint_kuchar_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 7, true, true)
AS(asg_mvar_uint_kint_void, M_ASSIGN, 0, L_MVAR, 1, -1, 0, 8, 5, 1, 0, true, true)
AS(read_mglb_uint, M_READ, 0, L_MGLB, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mglb_uint_o, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mglb_uint_n, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_mglb_uint_l, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_mglb_uint_o_void, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_mglb_uint_n_void, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_mglb_uint_l_void, M_ASSIGN, 0, L_MGLB, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(read_ofs_uint, M_READ, 0, L_OFS, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_ofs_uint_o, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_ofs_uint_n, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_ofs_uint_l, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_ofs_uint_o_void, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_ofs_uint_n_void, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_ofs_uint_l_void, M_ASSIGN, 0, L_OFS, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(read_mofs_uint, M_READ, 0, L_MOFS, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mofs_uint_o, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_mofs_uint_n, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_mofs_uint_l, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_mofs_uint_klong, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 2, false, true)
AS(asg_mofs_uint_kuchar, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 7, false, true)
AS(asg_mofs_uint_kint, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 0, false, true)
AS(asg_mofs_uint_o_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_mofs_uint_n_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_mofs_uint_l_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(asg_mofs_uint_klong_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 2, true, true)
AS(asg_mofs_uint_kuchar_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 7, true, true)
AS(asg_mofs_uint_kint_void, M_ASSIGN, 0, L_MOFS, 1, -1, 0, 8, 5, 1, 0, true, true)
AS(read_loc_uint, M_READ, 0, L_LOC, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(read_loc_uint_plain, M_READ, 0, L_LOC, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(asg_loc_uint_o, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_loc_uint_n, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_loc_uint_l, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_loc_uint_klong, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 2, false, true)
AS(asg_loc_uint_kuchar, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 7, false, true)
AS(asg_loc_uint_kint, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 0, false, true)
AS(asg_loc_uint_o_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_loc_uint_n_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_loc_uint_l_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(asg_loc_uint_klong_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 2, true, true)
AS(asg_loc_uint_kuchar_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 7, true, true)
AS(asg_loc_uint_kint_void, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 5, 1, 0, true, true)
AS(asg_loc_uint_plain, M_ASSIGN, 0, L_LOC, 1, -1, 0, 8, 0, 1, 0, false, false)
AS(read_glb_uint, M_READ, 0, L_GLB, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_glb_uint_o, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 0, 1, 0, false, true)
AS(asg_glb_uint_n, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(asg_glb_uint_l, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 2, 1, 0, false, true)
AS(asg_glb_uint_o_void, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 0, 1, 0, true, true)
AS(asg_glb_uint_n_void, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(asg_glb_uint_l_void, M_ASSIGN, 0, L_GLB, 1, -1, 0, 8, 2, 1, 0, true, true)
AS(read_deref_long, M_READ, 0, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(read_deref_long_plain, M_READ, 0, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(asg_deref_long_o, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_deref_long_n, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_deref_long_l, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_deref_long_kuchar, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 5, 2, 7, false, true)
AS(asg_deref_long_kint, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 5, 2, 0, false, true)
AS(asg_deref_long_o_void, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_deref_long_n_void, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_deref_long_l_void, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(asg_deref_long_kuchar_void, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 5, 2, 7, true, true)
AS(asg_deref_long_kint_void, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 5, 2, 0, true, true)
AS(asg_deref_long_plain, M_ASSIGN, 0, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(read_mem_long, M_READ, 0, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(read_mem_long_plain, M_READ, 0, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(asg_mem_long_o, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mem_long_n, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_mem_long_l, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_mem_long_kuchar, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 5, 2, 7, false, true)
AS(asg_mem_long_kint, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 5, 2, 0, false, true)
AS(asg_mem_long_o_void, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_mem_long_n_void, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_mem_long_l_void, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(asg_mem_long_kuchar_void, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 5, 2, 7, true, true)
AS(asg_mem_long_kint_void, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 5, 2, 0, true, true)
AS(asg_mem_long_plain, M_ASSIGN, 0, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(read_mvar_long, M_READ, 0, L_MVAR, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mvar_long_o, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mvar_long_n, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_mvar_long_l, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_mvar_long_kuchar, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 5, 2, 7, false, true)
AS(asg_mvar_long_kint, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 5, 2, 0, false, true)
AS(asg_mvar_long_o_void, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_mvar_long_n_void, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_mvar_long_l_void, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(asg_mvar_long_kuchar_void, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 5, 2, 7, true, true)
AS(asg_mvar_long_kint_void, M_ASSIGN, 0, L_MVAR, 2, -1, 0, 8, 5, 2, 0, true, true)
AS(read_mglb_long, M_READ, 0, L_MGLB, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mglb_long_o, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mglb_long_n, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_mglb_long_l, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_mglb_long_o_void, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_mglb_long_n_void, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_mglb_long_l_void, M_ASSIGN, 0, L_MGLB, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(read_ofs_long, M_READ, 0, L_OFS, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_ofs_long_o, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_ofs_long_n, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_ofs_long_l, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_ofs_long_o_void, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_ofs_long_n_void, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_ofs_long_l_void, M_ASSIGN, 0, L_OFS, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(read_mofs_long, M_READ, 0, L_MOFS, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mofs_long_o, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_mofs_long_n, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_mofs_long_l, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_mofs_long_kuchar, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 5, 2, 7, false, true)
AS(asg_mofs_long_kint, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 5, 2, 0, false, true)
AS(asg_mofs_long_o_void, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_mofs_long_n_void, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_mofs_long_l_void, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(asg_mofs_long_kuchar_void, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 5, 2, 7, true, true)
AS(asg_mofs_long_kint_void, M_ASSIGN, 0, L_MOFS, 2, -1, 0, 8, 5, 2, 0, true, true)
AS(read_loc_long, M_READ, 0, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(read_loc_long_plain, M_READ, 0, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(asg_loc_long_o, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_loc_long_n, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_loc_long_l, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_loc_long_kuchar, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 5, 2, 7, false, true)
AS(asg_loc_long_kint, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 5, 2, 0, false, true)
AS(asg_loc_long_o_void, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_loc_long_n_void, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_loc_long_l_void, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(asg_loc_long_kuchar_void, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 5, 2, 7, true, true)
AS(asg_loc_long_kint_void, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 5, 2, 0, true, true)
AS(asg_loc_long_plain, M_ASSIGN, 0, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, false)
AS(read_glb_long, M_READ, 0, L_GLB, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_glb_long_o, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(asg_glb_long_n, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(asg_glb_long_l, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(asg_glb_long_o_void, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(asg_glb_long_n_void, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(asg_glb_long_l_void, M_ASSIGN, 0, L_GLB, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(read_deref_ulong, M_READ, 0, L_DEREF, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(read_deref_ulong_plain, M_READ, 0, L_DEREF, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(asg_deref_ulong_o, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_deref_ulong_n, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_deref_ulong_l, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_deref_ulong_klong, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 2, false, true)
AS(asg_deref_ulong_kuchar, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 7, false, true)
AS(asg_deref_ulong_kint, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 0, false, true)
AS(asg_deref_ulong_o_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_deref_ulong_n_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_deref_ulong_l_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(asg_deref_ulong_klong_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 2, true, true)
AS(asg_deref_ulong_kuchar_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 7, true, true)
AS(asg_deref_ulong_kint_void, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 5, 3, 0, true, true)
AS(asg_deref_ulong_plain, M_ASSIGN, 0, L_DEREF, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(read_mem_ulong, M_READ, 0, L_MEM, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(read_mem_ulong_plain, M_READ, 0, L_MEM, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(asg_mem_ulong_o, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mem_ulong_n, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_mem_ulong_l, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_mem_ulong_klong, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 2, false, true)
AS(asg_mem_ulong_kuchar, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 7, false, true)
AS(asg_mem_ulong_kint, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 0, false, true)
AS(asg_mem_ulong_o_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_mem_ulong_n_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_mem_ulong_l_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(asg_mem_ulong_klong_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 2, true, true)
AS(asg_mem_ulong_kuchar_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 7, true, true)
AS(asg_mem_ulong_kint_void, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 5, 3, 0, true, true)
AS(asg_mem_ulong_plain, M_ASSIGN, 0, L_MEM, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(read_mvar_ulong, M_READ, 0, L_MVAR, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mvar_ulong_o, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mvar_ulong_n, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_mvar_ulong_l, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_mvar_ulong_klong, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 2, false, true)
AS(asg_mvar_ulong_kuchar, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 7, false, true)
AS(asg_mvar_ulong_kint, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 0, false, true)
AS(asg_mvar_ulong_o_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_mvar_ulong_n_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_mvar_ulong_l_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(asg_mvar_ulong_klong_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 2, true, true)
AS(asg_mvar_ulong_kuchar_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 7, true, true)
AS(asg_mvar_ulong_kint_void, M_ASSIGN, 0, L_MVAR, 3, -1, 0, 8, 5, 3, 0, true, true)
AS(read_mglb_ulong, M_READ, 0, L_MGLB, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mglb_ulong_o, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mglb_ulong_n, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_mglb_ulong_l, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_mglb_ulong_o_void, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_mglb_ulong_n_void, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_mglb_ulong_l_void, M_ASSIGN, 0, L_MGLB, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(read_ofs_ulong, M_READ, 0, L_OFS, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_ofs_ulong_o, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_ofs_ulong_n, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_ofs_ulong_l, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_ofs_ulong_o_void, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_ofs_ulong_n_void, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_ofs_ulong_l_void, M_ASSIGN, 0, L_OFS, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(read_mofs_ulong, M_READ, 0, L_MOFS, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mofs_ulong_o, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_mofs_ulong_n, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_mofs_ulong_l, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_mofs_ulong_klong, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 2, false, true)
AS(asg_mofs_ulong_kuchar, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 7, false, true)
AS(asg_mofs_ulong_kint, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 0, false, true)
AS(asg_mofs_ulong_o_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_mofs_ulong_n_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_mofs_ulong_l_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(asg_mofs_ulong_klong_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 2, true, true)
AS(asg_mofs_ulong_kuchar_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 7, true, true)
AS(asg_mofs_ulong_kint_void, M_ASSIGN, 0, L_MOFS, 3, -1, 0, 8, 5, 3, 0, true, true)
AS(read_loc_ulong, M_READ, 0, L_LOC, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(read_loc_ulong_plain, M_READ, 0, L_LOC, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(asg_loc_ulong_o, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_loc_ulong_n, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_loc_ulong_l, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_loc_ulong_klong, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 2, false, true)
AS(asg_loc_ulong_kuchar, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 7, false, true)
AS(asg_loc_ulong_kint, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 0, false, true)
AS(asg_loc_ulong_o_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_loc_ulong_n_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_loc_ulong_l_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(asg_loc_ulong_klong_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 2, true, true)
AS(asg_loc_ulong_kuchar_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 7, true, true)
AS(asg_loc_ulong_kint_void, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 5, 3, 0, true, true)
AS(asg_loc_ulong_plain, M_ASSIGN, 0, L_LOC, 3, -1, 0, 8, 0, 3, 0, false, false)
AS(read_glb_ulong, M_READ, 0, L_GLB, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_glb_ulong_o, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 0, 3, 0, false, true)
AS(asg_glb_ulong_n, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 1, 3, 0, false, true)
AS(asg_glb_ulong_l, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 2, 3, 0, false, true)
AS(asg_glb_ulong_o_void, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 0, 3, 0, true, true)
AS(asg_glb_ulong_n_void, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 1, 3, 0, true, true)
AS(asg_glb_ulong_l_void, M_ASSIGN, 0, L_GLB, 3, -1, 0, 8, 2, 3, 0, true, true)
AS(read_deref_ptr, M_READ, 0, L_DEREF, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(read_deref_ptr_plain, M_READ, 0, L_DEREF, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(asg_deref_ptr_o, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_deref_ptr_n, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_deref_ptr_l, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_deref_ptr_klong, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 2, false, true)
AS(asg_deref_ptr_kuchar, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 7, false, true)
AS(asg_deref_ptr_kint, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 0, false, true)
AS(asg_deref_ptr_o_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_deref_ptr_n_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_deref_ptr_l_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(asg_deref_ptr_klong_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 2, true, true)
AS(asg_deref_ptr_kuchar_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 7, true, true)
AS(asg_deref_ptr_kint_void, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 5, 4, 0, true, true)
AS(asg_deref_ptr_plain, M_ASSIGN, 0, L_DEREF, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(read_mem_ptr, M_READ, 0, L_MEM, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(read_mem_ptr_plain, M_READ, 0, L_MEM, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(asg_mem_ptr_o, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mem_ptr_n, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_mem_ptr_l, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_mem_ptr_klong, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 2, false, true)
AS(asg_mem_ptr_kuchar, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 7, false, true)
AS(asg_mem_ptr_kint, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 0, false, true)
AS(asg_mem_ptr_o_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_mem_ptr_n_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_mem_ptr_l_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(asg_mem_ptr_klong_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 2, true, true)
AS(asg_mem_ptr_kuchar_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 7, true, true)
AS(asg_mem_ptr_kint_void, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 5, 4, 0, true, true)
AS(asg_mem_ptr_plain, M_ASSIGN, 0, L_MEM, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(read_mvar_ptr, M_READ, 0, L_MVAR, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mvar_ptr_o, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mvar_ptr_n, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_mvar_ptr_l, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_mvar_ptr_klong, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 2, false, true)
AS(asg_mvar_ptr_kuchar, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 7, false, true)
AS(asg_mvar_ptr_kint, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 0, false, true)
AS(asg_mvar_ptr_o_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_mvar_ptr_n_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_mvar_ptr_l_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(asg_mvar_ptr_klong_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 2, true, true)
AS(asg_mvar_ptr_kuchar_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 7, true, true)
AS(asg_mvar_ptr_kint_void, M_ASSIGN, 0, L_MVAR, 4, -1, 0, 8, 5, 4, 0, true, true)
AS(read_mglb_ptr, M_READ, 0, L_MGLB, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mglb_ptr_o, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mglb_ptr_n, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_mglb_ptr_l, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_mglb_ptr_o_void, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_mglb_ptr_n_void, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_mglb_ptr_l_void, M_ASSIGN, 0, L_MGLB, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(read_ofs_ptr, M_READ, 0, L_OFS, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_ofs_ptr_o, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_ofs_ptr_n, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_ofs_ptr_l, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_ofs_ptr_o_void, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_ofs_ptr_n_void, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_ofs_ptr_l_void, M_ASSIGN, 0, L_OFS, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(read_mofs_ptr, M_READ, 0, L_MOFS, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mofs_ptr_o, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_mofs_ptr_n, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_mofs_ptr_l, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_mofs_ptr_klong, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 2, false, true)
AS(asg_mofs_ptr_kuchar, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 7, false, true)
AS(asg_mofs_ptr_kint, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 0, false, true)
AS(asg_mofs_ptr_o_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_mofs_ptr_n_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_mofs_ptr_l_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(asg_mofs_ptr_klong_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 2, true, true)
AS(asg_mofs_ptr_kuchar_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 7, true, true)
AS(asg_mofs_ptr_kint_void, M_ASSIGN, 0, L_MOFS, 4, -1, 0, 8, 5, 4, 0, true, true)
AS(read_loc_ptr, M_READ, 0, L_LOC, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(read_loc_ptr_plain, M_READ, 0, L_LOC, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(asg_loc_ptr_o, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_loc_ptr_n, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_loc_ptr_l, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_loc_ptr_klong, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 2, false, true)
AS(asg_loc_ptr_kuchar, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 7, false, true)
AS(asg_loc_ptr_kint, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 0, false, true)
AS(asg_loc_ptr_o_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_loc_ptr_n_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_loc_ptr_l_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(asg_loc_ptr_klong_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 2, true, true)
AS(asg_loc_ptr_kuchar_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 7, true, true)
AS(asg_loc_ptr_kint_void, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 5, 4, 0, true, true)
AS(asg_loc_ptr_plain, M_ASSIGN, 0, L_LOC, 4, -1, 0, 8, 0, 4, 0, false, false)
AS(read_glb_ptr, M_READ, 0, L_GLB, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_glb_ptr_o, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 0, 4, 0, false, true)
AS(asg_glb_ptr_n, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 1, 4, 0, false, true)
AS(asg_glb_ptr_l, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 2, 4, 0, false, true)
AS(asg_glb_ptr_o_void, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 0, 4, 0, true, true)
AS(asg_glb_ptr_n_void, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 1, 4, 0, true, true)
AS(asg_glb_ptr_l_void, M_ASSIGN, 0, L_GLB, 4, -1, 0, 8, 2, 4, 0, true, true)
AS(ar_add_char_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_char_deref_oint, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_char_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_char_deref_olong, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_char_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_char_deref_nint, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_char_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_char_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_char_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_char_deref_lint, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_char_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_char_deref_llong, M_ARITH, ND_ADD, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_char_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_char_loc_oint, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_char_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_char_loc_olong, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_char_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_char_loc_nint, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_char_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_char_loc_nlong, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_char_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_char_loc_nuint, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_char_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_char_loc_lint, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_char_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_char_loc_llong, M_ARITH, ND_ADD, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_char_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_char_mem_oint, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_char_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_char_mem_olong, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_char_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_char_mem_nint, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_char_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_char_mem_nlong, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_char_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_char_mem_lint, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_char_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_char_mem_llong, M_ARITH, ND_ADD, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_char_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_char_deref_oint, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_char_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_char_deref_olong, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_char_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_char_deref_nint, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_char_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_char_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_char_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_char_deref_lint, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_char_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_char_deref_llong, M_ARITH, ND_SUB, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_char_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_char_loc_oint, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_char_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_char_loc_olong, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_char_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_char_loc_nint, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_char_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_char_loc_nlong, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_char_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_char_loc_nuint, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_char_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_char_loc_lint, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_char_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_char_loc_llong, M_ARITH, ND_SUB, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_char_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_char_mem_oint, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_char_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_char_mem_olong, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_char_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_char_mem_nint, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_char_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_char_mem_nlong, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_char_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_char_mem_lint, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_char_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_char_mem_llong, M_ARITH, ND_SUB, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_char_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_char_deref_oint, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_char_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_char_deref_olong, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_char_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_char_deref_nint, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_char_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_char_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_char_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_char_deref_lint, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_char_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_char_deref_llong, M_ARITH, ND_MUL, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_char_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_char_loc_oint, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_char_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_char_loc_olong, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_char_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_char_loc_nint, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_char_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_char_loc_nlong, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_char_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_char_loc_nuint, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_char_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_char_loc_lint, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_char_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_char_loc_llong, M_ARITH, ND_MUL, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_char_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_char_mem_oint, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_char_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_char_mem_olong, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_char_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_char_mem_nint, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_char_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_char_mem_nlong, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_char_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_char_mem_lint, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_char_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_char_mem_llong, M_ARITH, ND_MUL, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_char_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_char_deref_oint, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_char_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_char_deref_olong, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_char_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_char_deref_nint, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_char_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_char_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_char_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_char_deref_lint, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_char_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_char_deref_llong, M_ARITH, ND_DIV, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_char_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_char_loc_oint, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_char_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_char_loc_olong, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_char_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_char_loc_nint, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_char_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_char_loc_nlong, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_char_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_char_loc_nuint, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_char_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_char_loc_lint, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_char_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_char_loc_llong, M_ARITH, ND_DIV, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_char_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_char_mem_oint, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_char_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_char_mem_olong, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_char_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_char_mem_nint, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_char_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_char_mem_nlong, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_char_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_char_mem_lint, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_char_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_char_mem_llong, M_ARITH, ND_DIV, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_char_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_char_deref_oint, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_char_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_char_deref_olong, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_char_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_char_deref_nint, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_char_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_char_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_char_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_char_deref_lint, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_char_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_char_deref_llong, M_ARITH, ND_MOD, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_char_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_char_loc_oint, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_char_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_char_loc_olong, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_char_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_char_loc_nint, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_char_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_char_loc_nlong, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_char_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_char_loc_nuint, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_char_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_char_loc_lint, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_char_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_char_loc_llong, M_ARITH, ND_MOD, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_char_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_char_mem_oint, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_char_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_char_mem_olong, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_char_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_char_mem_nint, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_char_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_char_mem_nlong, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_char_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_char_mem_lint, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_char_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_char_mem_llong, M_ARITH, ND_MOD, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_char_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_char_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_char_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_char_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_char_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_char_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_char_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_char_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_char_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_char_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_char_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_char_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_char_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_char_loc_oint, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_char_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_char_loc_olong, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_char_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_char_loc_nint, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_char_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_char_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_char_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_char_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_char_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_char_loc_lint, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_char_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_char_loc_llong, M_ARITH, ND_BITAND, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_char_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_char_mem_oint, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_char_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_char_mem_olong, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_char_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_char_mem_nint, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_char_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_char_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_char_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_char_mem_lint, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_char_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_char_mem_llong, M_ARITH, ND_BITAND, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_char_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_char_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_char_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_char_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_char_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_char_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_char_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_char_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_char_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_char_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_char_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_char_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_char_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_char_loc_oint, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_char_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_char_loc_olong, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_char_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_char_loc_nint, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_char_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_char_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_char_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_char_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_char_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_char_loc_lint, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_char_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_char_loc_llong, M_ARITH, ND_BITOR, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_char_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_char_mem_oint, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_char_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_char_mem_olong, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_char_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_char_mem_nint, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_char_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_char_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_char_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_char_mem_lint, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_char_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_char_mem_llong, M_ARITH, ND_BITOR, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_char_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_char_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_char_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_char_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_char_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_char_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_char_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_char_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_char_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_char_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_char_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_char_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_char_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_char_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_char_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_char_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_char_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_char_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_char_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_char_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_char_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_char_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_char_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_char_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_char_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_char_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_char_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_char_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_char_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_char_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_char_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_char_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_char_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_char_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_char_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_char_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_char_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_char_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_char_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_char_deref_oint, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_char_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_char_deref_olong, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_char_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_char_deref_nint, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_char_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_char_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_char_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_char_deref_lint, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_char_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_char_deref_llong, M_ARITH, ND_SHL, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_char_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_char_loc_oint, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_char_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_char_loc_olong, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_char_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_char_loc_nint, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_char_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_char_loc_nlong, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_char_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_char_loc_nuint, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_char_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_char_loc_lint, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_char_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_char_loc_llong, M_ARITH, ND_SHL, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_char_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_char_mem_oint, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_char_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_char_mem_olong, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_char_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_char_mem_nint, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_char_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_char_mem_nlong, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_char_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_char_mem_lint, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_char_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_char_mem_llong, M_ARITH, ND_SHL, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_char_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_char_deref_oint, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_char_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_char_deref_olong, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_char_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_char_deref_nint, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_char_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_char_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_char_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_char_deref_lint, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_char_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_char_deref_llong, M_ARITH, ND_SAR, L_DEREF, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_char_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_char_loc_oint, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_char_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_char_loc_olong, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_char_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_char_loc_nint, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_char_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_char_loc_nlong, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_char_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_char_loc_nuint, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_char_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_char_loc_lint, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_char_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_char_loc_llong, M_ARITH, ND_SAR, L_LOC, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_char_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_char_mem_oint, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_char_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_char_mem_olong, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_char_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_char_mem_nint, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_char_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_char_mem_nlong, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_char_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_char_mem_lint, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_char_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_char_mem_llong, M_ARITH, ND_SAR, L_MEM, 6, -1, 0, 8, 2, 2, 0, false, true)
AS(post_char_deref_void, M_POST, 0, L_DEREF, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(post_char_deref, M_POST, 0, L_DEREF, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(post_char_loc_void, M_POST, 0, L_LOC, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(post_char_loc, M_POST, 0, L_LOC, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(post_char_mem_void, M_POST, 0, L_MEM, 6, -1, 0, 8, 1, 0, 0, true, true)
AS(post_char_mem, M_POST, 0, L_MEM, 6, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uchar_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uchar_deref_oint, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uchar_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uchar_deref_olong, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uchar_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uchar_deref_nint, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uchar_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uchar_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uchar_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uchar_deref_lint, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uchar_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uchar_deref_llong, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_uchar_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uchar_loc_oint, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uchar_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uchar_loc_olong, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uchar_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uchar_loc_nint, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uchar_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uchar_loc_nlong, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uchar_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_uchar_loc_nuint, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_uchar_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uchar_loc_lint, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uchar_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uchar_loc_llong, M_ARITH, ND_ADD, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_uchar_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uchar_mem_oint, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uchar_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uchar_mem_olong, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uchar_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uchar_mem_nint, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uchar_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uchar_mem_nlong, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uchar_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uchar_mem_lint, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uchar_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uchar_mem_llong, M_ARITH, ND_ADD, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_uchar_plain, M_ARITH, ND_ADD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_sub_uchar_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uchar_deref_oint, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uchar_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uchar_deref_olong, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uchar_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uchar_deref_nint, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uchar_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uchar_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uchar_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uchar_deref_lint, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uchar_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uchar_deref_llong, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uchar_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uchar_loc_oint, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uchar_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uchar_loc_olong, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uchar_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uchar_loc_nint, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uchar_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uchar_loc_nlong, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uchar_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_uchar_loc_nuint, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_uchar_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uchar_loc_lint, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uchar_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uchar_loc_llong, M_ARITH, ND_SUB, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uchar_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uchar_mem_oint, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uchar_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uchar_mem_olong, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uchar_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uchar_mem_nint, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uchar_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uchar_mem_nlong, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uchar_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uchar_mem_lint, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uchar_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uchar_mem_llong, M_ARITH, ND_SUB, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uchar_plain, M_ARITH, ND_SUB, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mul_uchar_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uchar_deref_oint, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uchar_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uchar_deref_olong, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uchar_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uchar_deref_nint, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uchar_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uchar_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uchar_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uchar_deref_lint, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uchar_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uchar_deref_llong, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uchar_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uchar_loc_oint, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uchar_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uchar_loc_olong, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uchar_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uchar_loc_nint, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uchar_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uchar_loc_nlong, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uchar_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_uchar_loc_nuint, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_uchar_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uchar_loc_lint, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uchar_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uchar_loc_llong, M_ARITH, ND_MUL, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uchar_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uchar_mem_oint, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uchar_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uchar_mem_olong, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uchar_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uchar_mem_nint, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uchar_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uchar_mem_nlong, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uchar_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uchar_mem_lint, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uchar_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uchar_mem_llong, M_ARITH, ND_MUL, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uchar_plain, M_ARITH, ND_MUL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_div_uchar_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uchar_deref_oint, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uchar_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uchar_deref_olong, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uchar_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uchar_deref_nint, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uchar_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uchar_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uchar_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uchar_deref_lint, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uchar_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uchar_deref_llong, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uchar_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uchar_loc_oint, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uchar_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uchar_loc_olong, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uchar_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uchar_loc_nint, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uchar_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uchar_loc_nlong, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uchar_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_uchar_loc_nuint, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_uchar_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uchar_loc_lint, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uchar_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uchar_loc_llong, M_ARITH, ND_DIV, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uchar_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uchar_mem_oint, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uchar_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uchar_mem_olong, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uchar_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uchar_mem_nint, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uchar_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uchar_mem_nlong, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uchar_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uchar_mem_lint, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uchar_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uchar_mem_llong, M_ARITH, ND_DIV, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uchar_plain, M_ARITH, ND_DIV, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mod_uchar_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uchar_deref_oint, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uchar_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uchar_deref_olong, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uchar_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uchar_deref_nint, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uchar_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uchar_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uchar_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uchar_deref_lint, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uchar_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uchar_deref_llong, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uchar_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uchar_loc_oint, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uchar_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uchar_loc_olong, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uchar_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uchar_loc_nint, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uchar_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uchar_loc_nlong, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uchar_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_uchar_loc_nuint, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_uchar_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uchar_loc_lint, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uchar_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uchar_loc_llong, M_ARITH, ND_MOD, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uchar_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uchar_mem_oint, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uchar_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uchar_mem_olong, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uchar_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uchar_mem_nint, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uchar_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uchar_mem_nlong, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uchar_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uchar_mem_lint, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uchar_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uchar_mem_llong, M_ARITH, ND_MOD, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uchar_plain, M_ARITH, ND_MOD, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitand_uchar_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uchar_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uchar_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uchar_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uchar_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uchar_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uchar_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uchar_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uchar_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uchar_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uchar_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uchar_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uchar_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uchar_loc_oint, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uchar_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uchar_loc_olong, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uchar_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uchar_loc_nint, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uchar_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uchar_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uchar_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_uchar_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_uchar_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uchar_loc_lint, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uchar_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uchar_loc_llong, M_ARITH, ND_BITAND, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uchar_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uchar_mem_oint, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uchar_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uchar_mem_olong, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uchar_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uchar_mem_nint, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uchar_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uchar_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uchar_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uchar_mem_lint, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uchar_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uchar_mem_llong, M_ARITH, ND_BITAND, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uchar_plain, M_ARITH, ND_BITAND, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitor_uchar_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uchar_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uchar_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uchar_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uchar_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uchar_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uchar_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uchar_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uchar_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uchar_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uchar_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uchar_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uchar_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uchar_loc_oint, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uchar_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uchar_loc_olong, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uchar_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uchar_loc_nint, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uchar_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uchar_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uchar_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_uchar_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_uchar_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uchar_loc_lint, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uchar_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uchar_loc_llong, M_ARITH, ND_BITOR, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uchar_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uchar_mem_oint, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uchar_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uchar_mem_olong, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uchar_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uchar_mem_nint, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uchar_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uchar_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uchar_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uchar_mem_lint, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uchar_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uchar_mem_llong, M_ARITH, ND_BITOR, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uchar_plain, M_ARITH, ND_BITOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitxor_uchar_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uchar_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uchar_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uchar_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uchar_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uchar_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uchar_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uchar_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uchar_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uchar_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uchar_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uchar_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uchar_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uchar_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uchar_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uchar_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uchar_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uchar_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uchar_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uchar_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uchar_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_uchar_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_uchar_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uchar_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uchar_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uchar_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uchar_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uchar_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uchar_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uchar_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uchar_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uchar_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uchar_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uchar_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uchar_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uchar_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uchar_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uchar_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uchar_plain, M_ARITH, ND_BITXOR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shl_uchar_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uchar_deref_oint, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uchar_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uchar_deref_olong, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uchar_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uchar_deref_nint, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uchar_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uchar_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uchar_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uchar_deref_lint, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uchar_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uchar_deref_llong, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uchar_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uchar_loc_oint, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uchar_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uchar_loc_olong, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uchar_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uchar_loc_nint, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uchar_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uchar_loc_nlong, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uchar_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_uchar_loc_nuint, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_uchar_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uchar_loc_lint, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uchar_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uchar_loc_llong, M_ARITH, ND_SHL, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uchar_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uchar_mem_oint, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uchar_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uchar_mem_olong, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uchar_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uchar_mem_nint, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uchar_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uchar_mem_nlong, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uchar_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uchar_mem_lint, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uchar_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uchar_mem_llong, M_ARITH, ND_SHL, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uchar_plain, M_ARITH, ND_SHL, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shr_uchar_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uchar_deref_oint, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uchar_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uchar_deref_olong, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uchar_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uchar_deref_nint, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uchar_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uchar_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uchar_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uchar_deref_lint, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uchar_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uchar_deref_llong, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uchar_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uchar_loc_oint, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uchar_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uchar_loc_olong, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uchar_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uchar_loc_nint, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uchar_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uchar_loc_nlong, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uchar_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_uchar_loc_nuint, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_uchar_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uchar_loc_lint, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uchar_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uchar_loc_llong, M_ARITH, ND_SAR, L_LOC, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uchar_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uchar_mem_oint, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uchar_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uchar_mem_olong, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uchar_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uchar_mem_nint, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uchar_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uchar_mem_nlong, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uchar_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uchar_mem_lint, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uchar_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uchar_mem_llong, M_ARITH, ND_SAR, L_MEM, 7, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uchar_plain, M_ARITH, ND_SAR, L_DEREF, 7, -1, 0, 8, 0, 0, 0, false, false)
AS(post_uchar_deref_void, M_POST, 0, L_DEREF, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uchar_deref, M_POST, 0, L_DEREF, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(post_uchar_loc_void, M_POST, 0, L_LOC, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uchar_loc, M_POST, 0, L_LOC, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(post_uchar_mem_void, M_POST, 0, L_MEM, 7, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uchar_mem, M_POST, 0, L_MEM, 7, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_short_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_short_deref_oint, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_short_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_short_deref_olong, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_short_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_short_deref_nint, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_short_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_short_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_short_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_short_deref_lint, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_short_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_short_deref_llong, M_ARITH, ND_ADD, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_short_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_short_loc_oint, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_short_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_short_loc_olong, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_short_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_short_loc_nint, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_short_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_short_loc_nlong, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_short_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_short_loc_nuint, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_short_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_short_loc_lint, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_short_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_short_loc_llong, M_ARITH, ND_ADD, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_short_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_short_mem_oint, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_short_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_short_mem_olong, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_short_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_short_mem_nint, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_short_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_short_mem_nlong, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_short_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_short_mem_lint, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_short_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_short_mem_llong, M_ARITH, ND_ADD, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_short_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_short_deref_oint, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_short_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_short_deref_olong, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_short_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_short_deref_nint, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_short_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_short_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_short_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_short_deref_lint, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_short_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_short_deref_llong, M_ARITH, ND_SUB, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_short_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_short_loc_oint, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_short_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_short_loc_olong, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_short_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_short_loc_nint, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_short_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_short_loc_nlong, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_short_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_short_loc_nuint, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_short_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_short_loc_lint, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_short_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_short_loc_llong, M_ARITH, ND_SUB, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_short_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_short_mem_oint, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_short_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_short_mem_olong, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_short_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_short_mem_nint, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_short_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_short_mem_nlong, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_short_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_short_mem_lint, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_short_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_short_mem_llong, M_ARITH, ND_SUB, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_short_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_short_deref_oint, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_short_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_short_deref_olong, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_short_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_short_deref_nint, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_short_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_short_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_short_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_short_deref_lint, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_short_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_short_deref_llong, M_ARITH, ND_MUL, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_short_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_short_loc_oint, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_short_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_short_loc_olong, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_short_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_short_loc_nint, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_short_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_short_loc_nlong, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_short_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_short_loc_nuint, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_short_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_short_loc_lint, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_short_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_short_loc_llong, M_ARITH, ND_MUL, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_short_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_short_mem_oint, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_short_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_short_mem_olong, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_short_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_short_mem_nint, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_short_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_short_mem_nlong, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_short_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_short_mem_lint, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_short_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_short_mem_llong, M_ARITH, ND_MUL, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_short_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_short_deref_oint, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_short_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_short_deref_olong, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_short_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_short_deref_nint, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_short_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_short_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_short_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_short_deref_lint, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_short_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_short_deref_llong, M_ARITH, ND_DIV, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_short_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_short_loc_oint, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_short_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_short_loc_olong, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_short_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_short_loc_nint, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_short_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_short_loc_nlong, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_short_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_short_loc_nuint, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_short_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_short_loc_lint, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_short_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_short_loc_llong, M_ARITH, ND_DIV, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_short_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_short_mem_oint, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_short_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_short_mem_olong, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_short_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_short_mem_nint, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_short_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_short_mem_nlong, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_short_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_short_mem_lint, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_short_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_short_mem_llong, M_ARITH, ND_DIV, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_short_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_short_deref_oint, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_short_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_short_deref_olong, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_short_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_short_deref_nint, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_short_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_short_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_short_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_short_deref_lint, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_short_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_short_deref_llong, M_ARITH, ND_MOD, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_short_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_short_loc_oint, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_short_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_short_loc_olong, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_short_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_short_loc_nint, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_short_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_short_loc_nlong, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_short_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_short_loc_nuint, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_short_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_short_loc_lint, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_short_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_short_loc_llong, M_ARITH, ND_MOD, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_short_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_short_mem_oint, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_short_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_short_mem_olong, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_short_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_short_mem_nint, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_short_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_short_mem_nlong, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_short_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_short_mem_lint, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_short_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_short_mem_llong, M_ARITH, ND_MOD, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_short_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_short_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_short_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_short_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_short_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_short_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_short_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_short_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_short_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_short_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_short_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_short_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_short_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_short_loc_oint, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_short_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_short_loc_olong, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_short_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_short_loc_nint, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_short_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_short_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_short_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_short_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_short_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_short_loc_lint, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_short_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_short_loc_llong, M_ARITH, ND_BITAND, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_short_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_short_mem_oint, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_short_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_short_mem_olong, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_short_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_short_mem_nint, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_short_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_short_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_short_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_short_mem_lint, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_short_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_short_mem_llong, M_ARITH, ND_BITAND, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_short_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_short_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_short_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_short_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_short_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_short_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_short_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_short_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_short_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_short_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_short_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_short_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_short_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_short_loc_oint, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_short_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_short_loc_olong, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_short_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_short_loc_nint, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_short_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_short_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_short_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_short_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_short_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_short_loc_lint, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_short_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_short_loc_llong, M_ARITH, ND_BITOR, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_short_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_short_mem_oint, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_short_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_short_mem_olong, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_short_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_short_mem_nint, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_short_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_short_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_short_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_short_mem_lint, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_short_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_short_mem_llong, M_ARITH, ND_BITOR, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_short_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_short_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_short_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_short_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_short_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_short_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_short_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_short_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_short_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_short_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_short_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_short_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_short_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_short_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_short_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_short_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_short_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_short_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_short_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_short_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_short_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_short_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_short_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_short_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_short_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_short_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_short_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_short_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_short_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_short_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_short_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_short_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_short_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_short_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_short_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_short_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_short_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_short_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_short_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_short_deref_oint, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_short_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_short_deref_olong, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_short_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_short_deref_nint, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_short_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_short_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_short_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_short_deref_lint, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_short_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_short_deref_llong, M_ARITH, ND_SHL, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_short_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_short_loc_oint, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_short_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_short_loc_olong, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_short_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_short_loc_nint, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_short_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_short_loc_nlong, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_short_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_short_loc_nuint, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_short_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_short_loc_lint, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_short_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_short_loc_llong, M_ARITH, ND_SHL, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_short_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_short_mem_oint, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_short_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_short_mem_olong, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_short_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_short_mem_nint, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_short_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_short_mem_nlong, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_short_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_short_mem_lint, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_short_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_short_mem_llong, M_ARITH, ND_SHL, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_short_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_short_deref_oint, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_short_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_short_deref_olong, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_short_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_short_deref_nint, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_short_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_short_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_short_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_short_deref_lint, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_short_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_short_deref_llong, M_ARITH, ND_SAR, L_DEREF, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_short_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_short_loc_oint, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_short_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_short_loc_olong, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_short_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_short_loc_nint, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_short_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_short_loc_nlong, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_short_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_short_loc_nuint, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_short_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_short_loc_lint, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_short_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_short_loc_llong, M_ARITH, ND_SAR, L_LOC, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_short_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_short_mem_oint, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_short_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_short_mem_olong, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_short_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_short_mem_nint, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_short_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_short_mem_nlong, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_short_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_short_mem_lint, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_short_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_short_mem_llong, M_ARITH, ND_SAR, L_MEM, 8, -1, 0, 8, 2, 2, 0, false, true)
AS(post_short_deref_void, M_POST, 0, L_DEREF, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(post_short_deref, M_POST, 0, L_DEREF, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(post_short_loc_void, M_POST, 0, L_LOC, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(post_short_loc, M_POST, 0, L_LOC, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(post_short_mem_void, M_POST, 0, L_MEM, 8, -1, 0, 8, 1, 0, 0, true, true)
AS(post_short_mem, M_POST, 0, L_MEM, 8, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_int_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_int_deref_oint, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_int_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_int_deref_olong, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_int_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_int_deref_nint, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_int_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_int_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_int_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_int_deref_lint, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_int_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_int_deref_llong, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_int_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_int_loc_oint, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_int_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_int_loc_olong, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_int_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_int_loc_nint, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_int_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_int_loc_nlong, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_int_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_int_loc_nuint, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_int_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_int_loc_lint, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_int_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_int_loc_llong, M_ARITH, ND_ADD, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_int_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_int_mem_oint, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_int_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_int_mem_olong, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_int_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_int_mem_nint, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_int_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_int_mem_nlong, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_int_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_int_mem_lint, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_int_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_int_mem_llong, M_ARITH, ND_ADD, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_int_plain, M_ARITH, ND_ADD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_sub_int_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_int_deref_oint, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_int_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_int_deref_olong, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_int_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_int_deref_nint, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_int_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_int_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_int_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_int_deref_lint, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_int_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_int_deref_llong, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_int_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_int_loc_oint, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_int_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_int_loc_olong, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_int_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_int_loc_nint, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_int_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_int_loc_nlong, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_int_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_int_loc_nuint, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_int_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_int_loc_lint, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_int_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_int_loc_llong, M_ARITH, ND_SUB, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_int_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_int_mem_oint, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_int_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_int_mem_olong, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_int_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_int_mem_nint, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_int_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_int_mem_nlong, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_int_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_int_mem_lint, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_int_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_int_mem_llong, M_ARITH, ND_SUB, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_int_plain, M_ARITH, ND_SUB, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mul_int_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_int_deref_oint, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_int_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_int_deref_olong, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_int_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_int_deref_nint, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_int_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_int_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_int_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_int_deref_lint, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_int_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_int_deref_llong, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_int_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_int_loc_oint, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_int_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_int_loc_olong, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_int_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_int_loc_nint, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_int_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_int_loc_nlong, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_int_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_int_loc_nuint, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_int_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_int_loc_lint, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_int_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_int_loc_llong, M_ARITH, ND_MUL, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_int_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_int_mem_oint, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_int_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_int_mem_olong, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_int_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_int_mem_nint, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_int_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_int_mem_nlong, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_int_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_int_mem_lint, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_int_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_int_mem_llong, M_ARITH, ND_MUL, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_int_plain, M_ARITH, ND_MUL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_div_int_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_int_deref_oint, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_int_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_int_deref_olong, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_int_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_int_deref_nint, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_int_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_int_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_int_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_int_deref_lint, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_int_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_int_deref_llong, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_int_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_int_loc_oint, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_int_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_int_loc_olong, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_int_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_int_loc_nint, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_int_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_int_loc_nlong, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_int_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_int_loc_nuint, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_int_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_int_loc_lint, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_int_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_int_loc_llong, M_ARITH, ND_DIV, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_int_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_int_mem_oint, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_int_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_int_mem_olong, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_int_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_int_mem_nint, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_int_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_int_mem_nlong, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_int_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_int_mem_lint, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_int_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_int_mem_llong, M_ARITH, ND_DIV, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_int_plain, M_ARITH, ND_DIV, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mod_int_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_int_deref_oint, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_int_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_int_deref_olong, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_int_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_int_deref_nint, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_int_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_int_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_int_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_int_deref_lint, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_int_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_int_deref_llong, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_int_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_int_loc_oint, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_int_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_int_loc_olong, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_int_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_int_loc_nint, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_int_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_int_loc_nlong, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_int_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_int_loc_nuint, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_int_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_int_loc_lint, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_int_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_int_loc_llong, M_ARITH, ND_MOD, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_int_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_int_mem_oint, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_int_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_int_mem_olong, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_int_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_int_mem_nint, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_int_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_int_mem_nlong, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_int_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_int_mem_lint, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_int_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_int_mem_llong, M_ARITH, ND_MOD, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_int_plain, M_ARITH, ND_MOD, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitand_int_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_int_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_int_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_int_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_int_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_int_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_int_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_int_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_int_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_int_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_int_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_int_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_int_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_int_loc_oint, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_int_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_int_loc_olong, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_int_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_int_loc_nint, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_int_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_int_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_int_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_int_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_int_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_int_loc_lint, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_int_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_int_loc_llong, M_ARITH, ND_BITAND, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_int_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_int_mem_oint, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_int_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_int_mem_olong, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_int_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_int_mem_nint, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_int_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_int_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_int_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_int_mem_lint, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_int_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_int_mem_llong, M_ARITH, ND_BITAND, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_int_plain, M_ARITH, ND_BITAND, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitor_int_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_int_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_int_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_int_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_int_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_int_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_int_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_int_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_int_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_int_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_int_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_int_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_int_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_int_loc_oint, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_int_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_int_loc_olong, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_int_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_int_loc_nint, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_int_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_int_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_int_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_int_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_int_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_int_loc_lint, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_int_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_int_loc_llong, M_ARITH, ND_BITOR, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_int_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_int_mem_oint, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_int_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_int_mem_olong, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_int_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_int_mem_nint, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_int_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_int_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_int_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_int_mem_lint, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_int_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_int_mem_llong, M_ARITH, ND_BITOR, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_int_plain, M_ARITH, ND_BITOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitxor_int_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_int_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_int_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_int_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_int_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_int_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_int_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_int_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_int_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_int_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_int_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_int_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_int_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_int_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_int_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_int_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_int_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_int_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_int_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_int_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_int_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_int_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_int_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_int_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_int_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_int_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_int_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_int_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_int_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_int_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_int_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_int_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_int_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_int_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_int_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_int_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_int_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_int_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_int_plain, M_ARITH, ND_BITXOR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shl_int_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_int_deref_oint, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_int_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_int_deref_olong, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_int_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_int_deref_nint, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_int_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_int_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_int_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_int_deref_lint, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_int_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_int_deref_llong, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_int_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_int_loc_oint, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_int_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_int_loc_olong, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_int_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_int_loc_nint, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_int_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_int_loc_nlong, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_int_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_int_loc_nuint, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_int_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_int_loc_lint, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_int_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_int_loc_llong, M_ARITH, ND_SHL, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_int_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_int_mem_oint, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_int_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_int_mem_olong, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_int_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_int_mem_nint, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_int_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_int_mem_nlong, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_int_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_int_mem_lint, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_int_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_int_mem_llong, M_ARITH, ND_SHL, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_int_plain, M_ARITH, ND_SHL, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shr_int_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_int_deref_oint, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_int_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_int_deref_olong, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_int_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_int_deref_nint, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_int_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_int_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_int_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_int_deref_lint, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_int_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_int_deref_llong, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_int_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_int_loc_oint, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_int_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_int_loc_olong, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_int_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_int_loc_nint, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_int_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_int_loc_nlong, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_int_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_int_loc_nuint, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_int_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_int_loc_lint, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_int_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_int_loc_llong, M_ARITH, ND_SAR, L_LOC, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_int_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_int_mem_oint, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_int_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_int_mem_olong, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_int_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_int_mem_nint, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_int_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_int_mem_nlong, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_int_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_int_mem_lint, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_int_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_int_mem_llong, M_ARITH, ND_SAR, L_MEM, 0, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_int_plain, M_ARITH, ND_SAR, L_DEREF, 0, -1, 0, 8, 0, 0, 0, false, false)
AS(post_int_deref_void, M_POST, 0, L_DEREF, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(post_int_deref, M_POST, 0, L_DEREF, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(post_int_loc_void, M_POST, 0, L_LOC, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(post_int_loc, M_POST, 0, L_LOC, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(post_int_mem_void, M_POST, 0, L_MEM, 0, -1, 0, 8, 1, 0, 0, true, true)
AS(post_int_mem, M_POST, 0, L_MEM, 0, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uint_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uint_deref_oint, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uint_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uint_deref_olong, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uint_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uint_deref_nint, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uint_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uint_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uint_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uint_deref_lint, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uint_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uint_deref_llong, M_ARITH, ND_ADD, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_uint_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uint_loc_oint, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uint_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uint_loc_olong, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uint_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uint_loc_nint, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uint_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uint_loc_nlong, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uint_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_uint_loc_nuint, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_uint_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uint_loc_lint, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uint_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uint_loc_llong, M_ARITH, ND_ADD, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_uint_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_uint_mem_oint, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_uint_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_uint_mem_olong, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_uint_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_uint_mem_nint, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_uint_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_uint_mem_nlong, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_uint_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_uint_mem_lint, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_uint_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_uint_mem_llong, M_ARITH, ND_ADD, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uint_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uint_deref_oint, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uint_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uint_deref_olong, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uint_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uint_deref_nint, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uint_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uint_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uint_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uint_deref_lint, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uint_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uint_deref_llong, M_ARITH, ND_SUB, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uint_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uint_loc_oint, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uint_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uint_loc_olong, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uint_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uint_loc_nint, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uint_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uint_loc_nlong, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uint_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_uint_loc_nuint, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_uint_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uint_loc_lint, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uint_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uint_loc_llong, M_ARITH, ND_SUB, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_uint_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_uint_mem_oint, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_uint_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_uint_mem_olong, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_uint_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_uint_mem_nint, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_uint_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_uint_mem_nlong, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_uint_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_uint_mem_lint, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_uint_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_uint_mem_llong, M_ARITH, ND_SUB, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uint_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uint_deref_oint, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uint_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uint_deref_olong, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uint_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uint_deref_nint, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uint_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uint_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uint_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uint_deref_lint, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uint_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uint_deref_llong, M_ARITH, ND_MUL, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uint_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uint_loc_oint, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uint_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uint_loc_olong, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uint_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uint_loc_nint, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uint_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uint_loc_nlong, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uint_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_uint_loc_nuint, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_uint_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uint_loc_lint, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uint_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uint_loc_llong, M_ARITH, ND_MUL, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_uint_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_uint_mem_oint, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_uint_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_uint_mem_olong, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_uint_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_uint_mem_nint, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_uint_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_uint_mem_nlong, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_uint_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_uint_mem_lint, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_uint_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_uint_mem_llong, M_ARITH, ND_MUL, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uint_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uint_deref_oint, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uint_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uint_deref_olong, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uint_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uint_deref_nint, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uint_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uint_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uint_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uint_deref_lint, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uint_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uint_deref_llong, M_ARITH, ND_DIV, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uint_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uint_loc_oint, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uint_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uint_loc_olong, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uint_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uint_loc_nint, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uint_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uint_loc_nlong, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uint_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_uint_loc_nuint, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_uint_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uint_loc_lint, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uint_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uint_loc_llong, M_ARITH, ND_DIV, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_uint_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_uint_mem_oint, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_uint_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_uint_mem_olong, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_uint_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_uint_mem_nint, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_uint_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_uint_mem_nlong, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_uint_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_uint_mem_lint, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_uint_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_uint_mem_llong, M_ARITH, ND_DIV, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uint_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uint_deref_oint, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uint_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uint_deref_olong, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uint_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uint_deref_nint, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uint_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uint_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uint_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uint_deref_lint, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uint_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uint_deref_llong, M_ARITH, ND_MOD, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uint_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uint_loc_oint, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uint_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uint_loc_olong, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uint_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uint_loc_nint, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uint_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uint_loc_nlong, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uint_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_uint_loc_nuint, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_uint_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uint_loc_lint, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uint_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uint_loc_llong, M_ARITH, ND_MOD, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_uint_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_uint_mem_oint, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_uint_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_uint_mem_olong, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_uint_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_uint_mem_nint, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_uint_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_uint_mem_nlong, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_uint_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_uint_mem_lint, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_uint_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_uint_mem_llong, M_ARITH, ND_MOD, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uint_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uint_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uint_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uint_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uint_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uint_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uint_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uint_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uint_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uint_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uint_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uint_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uint_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uint_loc_oint, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uint_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uint_loc_olong, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uint_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uint_loc_nint, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uint_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uint_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uint_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_uint_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_uint_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uint_loc_lint, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uint_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uint_loc_llong, M_ARITH, ND_BITAND, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_uint_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_uint_mem_oint, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_uint_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_uint_mem_olong, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_uint_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_uint_mem_nint, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_uint_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_uint_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_uint_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_uint_mem_lint, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_uint_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_uint_mem_llong, M_ARITH, ND_BITAND, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uint_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uint_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uint_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uint_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uint_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uint_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uint_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uint_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uint_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uint_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uint_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uint_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uint_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uint_loc_oint, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uint_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uint_loc_olong, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uint_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uint_loc_nint, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uint_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uint_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uint_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_uint_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_uint_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uint_loc_lint, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uint_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uint_loc_llong, M_ARITH, ND_BITOR, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_uint_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_uint_mem_oint, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_uint_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_uint_mem_olong, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_uint_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_uint_mem_nint, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_uint_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_uint_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_uint_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_uint_mem_lint, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_uint_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_uint_mem_llong, M_ARITH, ND_BITOR, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uint_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uint_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uint_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uint_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uint_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uint_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uint_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uint_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uint_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uint_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uint_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uint_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uint_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uint_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uint_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uint_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uint_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uint_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uint_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uint_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uint_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_uint_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_uint_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uint_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uint_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uint_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_uint_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_uint_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_uint_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_uint_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_uint_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_uint_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_uint_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_uint_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_uint_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_uint_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_uint_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_uint_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uint_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uint_deref_oint, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uint_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uint_deref_olong, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uint_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uint_deref_nint, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uint_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uint_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uint_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uint_deref_lint, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uint_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uint_deref_llong, M_ARITH, ND_SHL, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uint_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uint_loc_oint, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uint_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uint_loc_olong, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uint_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uint_loc_nint, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uint_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uint_loc_nlong, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uint_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_uint_loc_nuint, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_uint_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uint_loc_lint, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uint_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uint_loc_llong, M_ARITH, ND_SHL, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_uint_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_uint_mem_oint, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_uint_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_uint_mem_olong, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_uint_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_uint_mem_nint, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_uint_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_uint_mem_nlong, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_uint_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_uint_mem_lint, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_uint_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_uint_mem_llong, M_ARITH, ND_SHL, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uint_deref_oint_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uint_deref_oint, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uint_deref_olong_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uint_deref_olong, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uint_deref_nint_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uint_deref_nint, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uint_deref_nlong_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uint_deref_nlong, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uint_deref_lint_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uint_deref_lint, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uint_deref_llong_void, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uint_deref_llong, M_ARITH, ND_SHR, L_DEREF, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uint_loc_oint_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uint_loc_oint, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uint_loc_olong_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uint_loc_olong, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uint_loc_nint_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uint_loc_nint, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uint_loc_nlong_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uint_loc_nlong, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uint_loc_nuint_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_uint_loc_nuint, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_uint_loc_lint_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uint_loc_lint, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uint_loc_llong_void, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uint_loc_llong, M_ARITH, ND_SHR, L_LOC, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_uint_mem_oint_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_uint_mem_oint, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_uint_mem_olong_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_uint_mem_olong, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_uint_mem_nint_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_uint_mem_nint, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_uint_mem_nlong_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_uint_mem_nlong, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_uint_mem_lint_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_uint_mem_lint, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_uint_mem_llong_void, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_uint_mem_llong, M_ARITH, ND_SHR, L_MEM, 1, -1, 0, 8, 2, 2, 0, false, true)
AS(post_uint_deref_void, M_POST, 0, L_DEREF, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uint_deref, M_POST, 0, L_DEREF, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(post_uint_loc_void, M_POST, 0, L_LOC, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uint_loc, M_POST, 0, L_LOC, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(post_uint_mem_void, M_POST, 0, L_MEM, 1, -1, 0, 8, 1, 0, 0, true, true)
AS(post_uint_mem, M_POST, 0, L_MEM, 1, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_long_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_long_deref_oint, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_long_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_long_deref_olong, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_long_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_long_deref_nint, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_long_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_long_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_long_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_long_deref_lint, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_long_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_long_deref_llong, M_ARITH, ND_ADD, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_long_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_long_loc_oint, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_long_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_long_loc_olong, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_long_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_long_loc_nint, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_long_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_long_loc_nlong, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_long_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_long_loc_nuint, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_long_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_long_loc_lint, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_long_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_long_loc_llong, M_ARITH, ND_ADD, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_long_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_long_mem_oint, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_long_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_long_mem_olong, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_long_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_long_mem_nint, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_long_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_long_mem_nlong, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_long_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_long_mem_lint, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_long_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_long_mem_llong, M_ARITH, ND_ADD, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_long_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_long_deref_oint, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_long_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_long_deref_olong, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_long_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_long_deref_nint, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_long_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_long_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_long_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_long_deref_lint, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_long_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_long_deref_llong, M_ARITH, ND_SUB, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_long_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_long_loc_oint, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_long_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_long_loc_olong, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_long_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_long_loc_nint, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_long_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_long_loc_nlong, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_long_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_long_loc_nuint, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_long_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_long_loc_lint, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_long_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_long_loc_llong, M_ARITH, ND_SUB, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_long_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_long_mem_oint, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_long_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_long_mem_olong, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_long_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_long_mem_nint, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_long_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_long_mem_nlong, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_long_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_long_mem_lint, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_long_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_long_mem_llong, M_ARITH, ND_SUB, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_long_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_long_deref_oint, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_long_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_long_deref_olong, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_long_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_long_deref_nint, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_long_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_long_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_long_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_long_deref_lint, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_long_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_long_deref_llong, M_ARITH, ND_MUL, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_long_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_long_loc_oint, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_long_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_long_loc_olong, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_long_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_long_loc_nint, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_long_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_long_loc_nlong, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_long_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_long_loc_nuint, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_long_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_long_loc_lint, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_long_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_long_loc_llong, M_ARITH, ND_MUL, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_long_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_long_mem_oint, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_long_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_long_mem_olong, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_long_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_long_mem_nint, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_long_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_long_mem_nlong, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_long_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_long_mem_lint, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_long_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_long_mem_llong, M_ARITH, ND_MUL, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_long_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_long_deref_oint, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_long_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_long_deref_olong, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_long_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_long_deref_nint, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_long_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_long_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_long_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_long_deref_lint, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_long_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_long_deref_llong, M_ARITH, ND_DIV, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_long_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_long_loc_oint, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_long_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_long_loc_olong, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_long_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_long_loc_nint, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_long_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_long_loc_nlong, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_long_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_long_loc_nuint, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_long_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_long_loc_lint, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_long_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_long_loc_llong, M_ARITH, ND_DIV, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_long_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_long_mem_oint, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_long_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_long_mem_olong, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_long_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_long_mem_nint, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_long_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_long_mem_nlong, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_long_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_long_mem_lint, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_long_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_long_mem_llong, M_ARITH, ND_DIV, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_long_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_long_deref_oint, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_long_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_long_deref_olong, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_long_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_long_deref_nint, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_long_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_long_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_long_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_long_deref_lint, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_long_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_long_deref_llong, M_ARITH, ND_MOD, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_long_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_long_loc_oint, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_long_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_long_loc_olong, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_long_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_long_loc_nint, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_long_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_long_loc_nlong, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_long_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_long_loc_nuint, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_long_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_long_loc_lint, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_long_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_long_loc_llong, M_ARITH, ND_MOD, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_long_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_long_mem_oint, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_long_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_long_mem_olong, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_long_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_long_mem_nint, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_long_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_long_mem_nlong, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_long_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_long_mem_lint, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_long_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_long_mem_llong, M_ARITH, ND_MOD, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_long_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_long_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_long_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_long_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_long_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_long_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_long_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_long_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_long_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_long_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_long_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_long_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_long_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_long_loc_oint, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_long_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_long_loc_olong, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_long_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_long_loc_nint, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_long_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_long_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_long_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_long_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_long_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_long_loc_lint, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_long_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_long_loc_llong, M_ARITH, ND_BITAND, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_long_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_long_mem_oint, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_long_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_long_mem_olong, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_long_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_long_mem_nint, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_long_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_long_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_long_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_long_mem_lint, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_long_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_long_mem_llong, M_ARITH, ND_BITAND, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_long_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_long_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_long_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_long_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_long_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_long_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_long_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_long_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_long_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_long_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_long_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_long_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_long_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_long_loc_oint, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_long_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_long_loc_olong, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_long_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_long_loc_nint, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_long_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_long_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_long_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_long_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_long_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_long_loc_lint, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_long_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_long_loc_llong, M_ARITH, ND_BITOR, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_long_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_long_mem_oint, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_long_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_long_mem_olong, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_long_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_long_mem_nint, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_long_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_long_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_long_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_long_mem_lint, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_long_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_long_mem_llong, M_ARITH, ND_BITOR, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_long_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_long_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_long_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_long_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_long_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_long_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_long_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_long_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_long_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_long_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_long_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_long_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_long_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_long_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_long_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_long_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_long_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_long_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_long_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_long_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_long_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_long_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_long_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_long_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_long_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_long_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_long_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_long_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_long_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_long_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_long_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_long_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_long_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_long_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_long_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_long_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_long_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_long_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_long_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_long_deref_oint, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_long_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_long_deref_olong, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_long_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_long_deref_nint, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_long_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_long_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_long_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_long_deref_lint, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_long_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_long_deref_llong, M_ARITH, ND_SHL, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_long_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_long_loc_oint, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_long_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_long_loc_olong, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_long_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_long_loc_nint, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_long_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_long_loc_nlong, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_long_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_long_loc_nuint, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_long_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_long_loc_lint, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_long_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_long_loc_llong, M_ARITH, ND_SHL, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_long_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_long_mem_oint, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_long_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_long_mem_olong, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_long_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_long_mem_nint, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_long_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_long_mem_nlong, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_long_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_long_mem_lint, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_long_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_long_mem_llong, M_ARITH, ND_SHL, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_long_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_long_deref_oint, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_long_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_long_deref_olong, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_long_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_long_deref_nint, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_long_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_long_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_long_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_long_deref_lint, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_long_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_long_deref_llong, M_ARITH, ND_SAR, L_DEREF, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_long_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_long_loc_oint, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_long_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_long_loc_olong, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_long_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_long_loc_nint, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_long_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_long_loc_nlong, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_long_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_long_loc_nuint, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_long_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_long_loc_lint, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_long_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_long_loc_llong, M_ARITH, ND_SAR, L_LOC, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_long_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_long_mem_oint, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_long_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_long_mem_olong, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_long_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_long_mem_nint, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_long_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_long_mem_nlong, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_long_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_long_mem_lint, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_long_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_long_mem_llong, M_ARITH, ND_SAR, L_MEM, 2, -1, 0, 8, 2, 2, 0, false, true)
AS(post_long_deref_void, M_POST, 0, L_DEREF, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(post_long_deref, M_POST, 0, L_DEREF, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(post_long_loc_void, M_POST, 0, L_LOC, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(post_long_loc, M_POST, 0, L_LOC, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(post_long_mem_void, M_POST, 0, L_MEM, 2, -1, 0, 8, 1, 0, 0, true, true)
AS(post_long_mem, M_POST, 0, L_MEM, 2, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_ulong_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_ulong_deref_oint, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_ulong_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ulong_deref_olong, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ulong_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_ulong_deref_nint, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_ulong_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ulong_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ulong_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_ulong_deref_lint, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_ulong_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ulong_deref_llong, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_ulong_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_ulong_loc_oint, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_ulong_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ulong_loc_olong, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ulong_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_ulong_loc_nint, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_ulong_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ulong_loc_nlong, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ulong_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_ulong_loc_nuint, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_ulong_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_ulong_loc_lint, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_ulong_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ulong_loc_llong, M_ARITH, ND_ADD, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_ulong_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_ulong_mem_oint, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_ulong_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ulong_mem_olong, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ulong_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_ulong_mem_nint, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_ulong_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ulong_mem_nlong, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ulong_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_ulong_mem_lint, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_ulong_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ulong_mem_llong, M_ARITH, ND_ADD, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_ulong_plain, M_ARITH, ND_ADD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_sub_ulong_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_ulong_deref_oint, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_ulong_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ulong_deref_olong, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ulong_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_ulong_deref_nint, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_ulong_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ulong_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ulong_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_ulong_deref_lint, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_ulong_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ulong_deref_llong, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ulong_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_ulong_loc_oint, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_ulong_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ulong_loc_olong, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ulong_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_ulong_loc_nint, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_ulong_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ulong_loc_nlong, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ulong_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_ulong_loc_nuint, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_ulong_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_ulong_loc_lint, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_ulong_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ulong_loc_llong, M_ARITH, ND_SUB, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ulong_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_ulong_mem_oint, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_ulong_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ulong_mem_olong, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ulong_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_ulong_mem_nint, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_ulong_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ulong_mem_nlong, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ulong_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_ulong_mem_lint, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_ulong_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ulong_mem_llong, M_ARITH, ND_SUB, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ulong_plain, M_ARITH, ND_SUB, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mul_ulong_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_ulong_deref_oint, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_ulong_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_ulong_deref_olong, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_ulong_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_ulong_deref_nint, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_ulong_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_ulong_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_ulong_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_ulong_deref_lint, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_ulong_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_ulong_deref_llong, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_ulong_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_ulong_loc_oint, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_ulong_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_ulong_loc_olong, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_ulong_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_ulong_loc_nint, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_ulong_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_ulong_loc_nlong, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_ulong_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_ulong_loc_nuint, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_ulong_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_ulong_loc_lint, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_ulong_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_ulong_loc_llong, M_ARITH, ND_MUL, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_ulong_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_ulong_mem_oint, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_ulong_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_ulong_mem_olong, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_ulong_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_ulong_mem_nint, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_ulong_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_ulong_mem_nlong, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_ulong_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_ulong_mem_lint, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_ulong_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_ulong_mem_llong, M_ARITH, ND_MUL, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_ulong_plain, M_ARITH, ND_MUL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_div_ulong_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_ulong_deref_oint, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_ulong_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_ulong_deref_olong, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_ulong_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_ulong_deref_nint, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_ulong_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_ulong_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_ulong_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_ulong_deref_lint, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_ulong_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_ulong_deref_llong, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_ulong_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_ulong_loc_oint, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_ulong_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_ulong_loc_olong, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_ulong_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_ulong_loc_nint, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_ulong_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_ulong_loc_nlong, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_ulong_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_ulong_loc_nuint, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_ulong_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_ulong_loc_lint, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_ulong_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_ulong_loc_llong, M_ARITH, ND_DIV, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_ulong_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_ulong_mem_oint, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_ulong_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_ulong_mem_olong, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_ulong_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_ulong_mem_nint, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_ulong_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_ulong_mem_nlong, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_ulong_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_ulong_mem_lint, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_ulong_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_ulong_mem_llong, M_ARITH, ND_DIV, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_ulong_plain, M_ARITH, ND_DIV, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_mod_ulong_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_ulong_deref_oint, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_ulong_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_ulong_deref_olong, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_ulong_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_ulong_deref_nint, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_ulong_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_ulong_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_ulong_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_ulong_deref_lint, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_ulong_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_ulong_deref_llong, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_ulong_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_ulong_loc_oint, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_ulong_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_ulong_loc_olong, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_ulong_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_ulong_loc_nint, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_ulong_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_ulong_loc_nlong, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_ulong_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_ulong_loc_nuint, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_ulong_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_ulong_loc_lint, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_ulong_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_ulong_loc_llong, M_ARITH, ND_MOD, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_ulong_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_ulong_mem_oint, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_ulong_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_ulong_mem_olong, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_ulong_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_ulong_mem_nint, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_ulong_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_ulong_mem_nlong, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_ulong_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_ulong_mem_lint, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_ulong_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_ulong_mem_llong, M_ARITH, ND_MOD, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_ulong_plain, M_ARITH, ND_MOD, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitand_ulong_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_ulong_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_ulong_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_ulong_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_ulong_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_ulong_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_ulong_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_ulong_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_ulong_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_ulong_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_ulong_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_ulong_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_ulong_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_ulong_loc_oint, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_ulong_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_ulong_loc_olong, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_ulong_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_ulong_loc_nint, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_ulong_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_ulong_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_ulong_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_ulong_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_ulong_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_ulong_loc_lint, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_ulong_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_ulong_loc_llong, M_ARITH, ND_BITAND, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_ulong_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_ulong_mem_oint, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_ulong_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_ulong_mem_olong, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_ulong_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_ulong_mem_nint, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_ulong_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_ulong_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_ulong_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_ulong_mem_lint, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_ulong_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_ulong_mem_llong, M_ARITH, ND_BITAND, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_ulong_plain, M_ARITH, ND_BITAND, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitor_ulong_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_ulong_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_ulong_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_ulong_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_ulong_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_ulong_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_ulong_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_ulong_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_ulong_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_ulong_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_ulong_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_ulong_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_ulong_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_ulong_loc_oint, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_ulong_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_ulong_loc_olong, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_ulong_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_ulong_loc_nint, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_ulong_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_ulong_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_ulong_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_ulong_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_ulong_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_ulong_loc_lint, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_ulong_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_ulong_loc_llong, M_ARITH, ND_BITOR, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_ulong_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_ulong_mem_oint, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_ulong_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_ulong_mem_olong, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_ulong_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_ulong_mem_nint, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_ulong_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_ulong_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_ulong_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_ulong_mem_lint, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_ulong_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_ulong_mem_llong, M_ARITH, ND_BITOR, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_ulong_plain, M_ARITH, ND_BITOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_bitxor_ulong_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_ulong_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_ulong_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_ulong_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_ulong_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_ulong_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_ulong_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_ulong_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_ulong_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_ulong_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_ulong_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_ulong_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_ulong_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_ulong_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_ulong_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_ulong_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_ulong_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_ulong_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_ulong_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_ulong_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_ulong_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_ulong_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_ulong_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_ulong_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_ulong_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_ulong_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_ulong_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_ulong_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_ulong_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_ulong_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_ulong_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_ulong_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_ulong_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_ulong_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_ulong_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_ulong_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_ulong_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_ulong_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_ulong_plain, M_ARITH, ND_BITXOR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shl_ulong_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_ulong_deref_oint, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_ulong_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_ulong_deref_olong, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_ulong_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_ulong_deref_nint, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_ulong_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_ulong_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_ulong_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_ulong_deref_lint, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_ulong_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_ulong_deref_llong, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_ulong_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_ulong_loc_oint, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_ulong_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_ulong_loc_olong, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_ulong_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_ulong_loc_nint, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_ulong_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_ulong_loc_nlong, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_ulong_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_ulong_loc_nuint, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_ulong_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_ulong_loc_lint, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_ulong_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_ulong_loc_llong, M_ARITH, ND_SHL, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_ulong_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_ulong_mem_oint, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_ulong_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_ulong_mem_olong, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_ulong_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_ulong_mem_nint, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_ulong_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_ulong_mem_nlong, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_ulong_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_ulong_mem_lint, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_ulong_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_ulong_mem_llong, M_ARITH, ND_SHL, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_ulong_plain, M_ARITH, ND_SHL, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(ar_shr_ulong_deref_oint_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_ulong_deref_oint, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_ulong_deref_olong_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_ulong_deref_olong, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_ulong_deref_nint_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_ulong_deref_nint, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_ulong_deref_nlong_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_ulong_deref_nlong, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_ulong_deref_lint_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_ulong_deref_lint, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_ulong_deref_llong_void, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_ulong_deref_llong, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_ulong_loc_oint_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_ulong_loc_oint, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_ulong_loc_olong_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_ulong_loc_olong, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_ulong_loc_nint_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_ulong_loc_nint, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_ulong_loc_nlong_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_ulong_loc_nlong, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_ulong_loc_nuint_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_ulong_loc_nuint, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_ulong_loc_lint_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_ulong_loc_lint, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_ulong_loc_llong_void, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_ulong_loc_llong, M_ARITH, ND_SHR, L_LOC, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_ulong_mem_oint_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_ulong_mem_oint, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_ulong_mem_olong_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_ulong_mem_olong, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_ulong_mem_nint_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_ulong_mem_nint, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_ulong_mem_nlong_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_ulong_mem_nlong, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_ulong_mem_lint_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_ulong_mem_lint, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_ulong_mem_llong_void, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_ulong_mem_llong, M_ARITH, ND_SHR, L_MEM, 3, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_ulong_plain, M_ARITH, ND_SHR, L_DEREF, 3, -1, 0, 8, 0, 0, 0, false, false)
AS(post_ulong_deref_void, M_POST, 0, L_DEREF, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(post_ulong_deref, M_POST, 0, L_DEREF, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(post_ulong_loc_void, M_POST, 0, L_LOC, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(post_ulong_loc, M_POST, 0, L_LOC, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(post_ulong_mem_void, M_POST, 0, L_MEM, 3, -1, 0, 8, 1, 0, 0, true, true)
AS(post_ulong_mem, M_POST, 0, L_MEM, 3, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_ptr_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ptr_deref_olong, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ptr_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ptr_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ptr_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ptr_deref_llong, M_ARITH, ND_ADD, L_DEREF, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_ptr_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ptr_loc_olong, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ptr_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ptr_loc_nlong, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ptr_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ptr_loc_llong, M_ARITH, ND_ADD, L_LOC, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_ptr_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_ptr_mem_olong, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_ptr_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_ptr_mem_nlong, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_ptr_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_ptr_mem_llong, M_ARITH, ND_ADD, L_MEM, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ptr_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ptr_deref_olong, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ptr_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ptr_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ptr_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ptr_deref_llong, M_ARITH, ND_SUB, L_DEREF, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ptr_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ptr_loc_olong, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ptr_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ptr_loc_nlong, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ptr_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ptr_loc_llong, M_ARITH, ND_SUB, L_LOC, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_ptr_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_ptr_mem_olong, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_ptr_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_ptr_mem_nlong, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_ptr_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_ptr_mem_llong, M_ARITH, ND_SUB, L_MEM, 4, -1, 0, 8, 2, 2, 0, false, true)
AS(post_ptr_deref_void, M_POST, 0, L_DEREF, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(post_ptr_deref, M_POST, 0, L_DEREF, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(post_ptr_loc_void, M_POST, 0, L_LOC, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(post_ptr_loc, M_POST, 0, L_LOC, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(post_ptr_mem_void, M_POST, 0, L_MEM, 4, -1, 0, 8, 1, 2, 0, true, true)
AS(post_ptr_mem, M_POST, 0, L_MEM, 4, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_bool_deref_oint_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_bool_deref_oint, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_bool_deref_olong_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_bool_deref_olong, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_bool_deref_nint_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_bool_deref_nint, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_bool_deref_nlong_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_bool_deref_nlong, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_bool_deref_lint_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_bool_deref_lint, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_bool_deref_llong_void, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_bool_deref_llong, M_ARITH, ND_ADD, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_bool_loc_oint_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_bool_loc_oint, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_bool_loc_olong_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_bool_loc_olong, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_bool_loc_nint_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_bool_loc_nint, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_bool_loc_nlong_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_bool_loc_nlong, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_bool_loc_nuint_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_add_bool_loc_nuint, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_add_bool_loc_lint_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_bool_loc_lint, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_bool_loc_llong_void, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_bool_loc_llong, M_ARITH, ND_ADD, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_add_bool_mem_oint_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_add_bool_mem_oint, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_add_bool_mem_olong_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_add_bool_mem_olong, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_add_bool_mem_nint_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_add_bool_mem_nint, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_add_bool_mem_nlong_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_add_bool_mem_nlong, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_add_bool_mem_lint_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_add_bool_mem_lint, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_add_bool_mem_llong_void, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_add_bool_mem_llong, M_ARITH, ND_ADD, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_bool_deref_oint_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_bool_deref_oint, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_bool_deref_olong_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_bool_deref_olong, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_bool_deref_nint_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_bool_deref_nint, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_bool_deref_nlong_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_bool_deref_nlong, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_bool_deref_lint_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_bool_deref_lint, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_bool_deref_llong_void, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_bool_deref_llong, M_ARITH, ND_SUB, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_bool_loc_oint_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_bool_loc_oint, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_bool_loc_olong_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_bool_loc_olong, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_bool_loc_nint_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_bool_loc_nint, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_bool_loc_nlong_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_bool_loc_nlong, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_bool_loc_nuint_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_sub_bool_loc_nuint, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_sub_bool_loc_lint_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_bool_loc_lint, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_bool_loc_llong_void, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_bool_loc_llong, M_ARITH, ND_SUB, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_sub_bool_mem_oint_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_sub_bool_mem_oint, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_sub_bool_mem_olong_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_sub_bool_mem_olong, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_sub_bool_mem_nint_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_sub_bool_mem_nint, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_sub_bool_mem_nlong_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_sub_bool_mem_nlong, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_sub_bool_mem_lint_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_sub_bool_mem_lint, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_sub_bool_mem_llong_void, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_sub_bool_mem_llong, M_ARITH, ND_SUB, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_bool_deref_oint_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_bool_deref_oint, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_bool_deref_olong_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_bool_deref_olong, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_bool_deref_nint_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_bool_deref_nint, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_bool_deref_nlong_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_bool_deref_nlong, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_bool_deref_lint_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_bool_deref_lint, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_bool_deref_llong_void, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_bool_deref_llong, M_ARITH, ND_MUL, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_bool_loc_oint_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_bool_loc_oint, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_bool_loc_olong_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_bool_loc_olong, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_bool_loc_nint_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_bool_loc_nint, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_bool_loc_nlong_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_bool_loc_nlong, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_bool_loc_nuint_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mul_bool_loc_nuint, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mul_bool_loc_lint_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_bool_loc_lint, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_bool_loc_llong_void, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_bool_loc_llong, M_ARITH, ND_MUL, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mul_bool_mem_oint_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mul_bool_mem_oint, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mul_bool_mem_olong_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mul_bool_mem_olong, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mul_bool_mem_nint_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mul_bool_mem_nint, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mul_bool_mem_nlong_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mul_bool_mem_nlong, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mul_bool_mem_lint_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mul_bool_mem_lint, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mul_bool_mem_llong_void, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mul_bool_mem_llong, M_ARITH, ND_MUL, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_bool_deref_oint_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_bool_deref_oint, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_bool_deref_olong_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_bool_deref_olong, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_bool_deref_nint_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_bool_deref_nint, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_bool_deref_nlong_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_bool_deref_nlong, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_bool_deref_lint_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_bool_deref_lint, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_bool_deref_llong_void, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_bool_deref_llong, M_ARITH, ND_DIV, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_bool_loc_oint_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_bool_loc_oint, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_bool_loc_olong_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_bool_loc_olong, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_bool_loc_nint_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_bool_loc_nint, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_bool_loc_nlong_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_bool_loc_nlong, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_bool_loc_nuint_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_div_bool_loc_nuint, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_div_bool_loc_lint_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_bool_loc_lint, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_bool_loc_llong_void, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_bool_loc_llong, M_ARITH, ND_DIV, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_div_bool_mem_oint_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_div_bool_mem_oint, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_div_bool_mem_olong_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_div_bool_mem_olong, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_div_bool_mem_nint_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_div_bool_mem_nint, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_div_bool_mem_nlong_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_div_bool_mem_nlong, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_div_bool_mem_lint_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_div_bool_mem_lint, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_div_bool_mem_llong_void, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_div_bool_mem_llong, M_ARITH, ND_DIV, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_bool_deref_oint_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_bool_deref_oint, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_bool_deref_olong_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_bool_deref_olong, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_bool_deref_nint_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_bool_deref_nint, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_bool_deref_nlong_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_bool_deref_nlong, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_bool_deref_lint_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_bool_deref_lint, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_bool_deref_llong_void, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_bool_deref_llong, M_ARITH, ND_MOD, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_bool_loc_oint_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_bool_loc_oint, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_bool_loc_olong_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_bool_loc_olong, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_bool_loc_nint_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_bool_loc_nint, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_bool_loc_nlong_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_bool_loc_nlong, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_bool_loc_nuint_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_mod_bool_loc_nuint, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_mod_bool_loc_lint_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_bool_loc_lint, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_bool_loc_llong_void, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_bool_loc_llong, M_ARITH, ND_MOD, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_mod_bool_mem_oint_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_mod_bool_mem_oint, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_mod_bool_mem_olong_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_mod_bool_mem_olong, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_mod_bool_mem_nint_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_mod_bool_mem_nint, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_mod_bool_mem_nlong_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_mod_bool_mem_nlong, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_mod_bool_mem_lint_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_mod_bool_mem_lint, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_mod_bool_mem_llong_void, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_mod_bool_mem_llong, M_ARITH, ND_MOD, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_bool_deref_oint_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_bool_deref_oint, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_bool_deref_olong_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_bool_deref_olong, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_bool_deref_nint_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_bool_deref_nint, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_bool_deref_nlong_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_bool_deref_nlong, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_bool_deref_lint_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_bool_deref_lint, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_bool_deref_llong_void, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_bool_deref_llong, M_ARITH, ND_BITAND, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_bool_loc_oint_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_bool_loc_oint, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_bool_loc_olong_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_bool_loc_olong, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_bool_loc_nint_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_bool_loc_nint, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_bool_loc_nlong_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_bool_loc_nlong, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_bool_loc_nuint_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitand_bool_loc_nuint, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitand_bool_loc_lint_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_bool_loc_lint, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_bool_loc_llong_void, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_bool_loc_llong, M_ARITH, ND_BITAND, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitand_bool_mem_oint_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitand_bool_mem_oint, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitand_bool_mem_olong_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitand_bool_mem_olong, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitand_bool_mem_nint_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitand_bool_mem_nint, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitand_bool_mem_nlong_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitand_bool_mem_nlong, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitand_bool_mem_lint_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitand_bool_mem_lint, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitand_bool_mem_llong_void, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitand_bool_mem_llong, M_ARITH, ND_BITAND, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_bool_deref_oint_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_bool_deref_oint, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_bool_deref_olong_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_bool_deref_olong, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_bool_deref_nint_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_bool_deref_nint, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_bool_deref_nlong_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_bool_deref_nlong, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_bool_deref_lint_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_bool_deref_lint, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_bool_deref_llong_void, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_bool_deref_llong, M_ARITH, ND_BITOR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_bool_loc_oint_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_bool_loc_oint, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_bool_loc_olong_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_bool_loc_olong, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_bool_loc_nint_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_bool_loc_nint, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_bool_loc_nlong_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_bool_loc_nlong, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_bool_loc_nuint_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitor_bool_loc_nuint, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitor_bool_loc_lint_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_bool_loc_lint, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_bool_loc_llong_void, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_bool_loc_llong, M_ARITH, ND_BITOR, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitor_bool_mem_oint_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitor_bool_mem_oint, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitor_bool_mem_olong_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitor_bool_mem_olong, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitor_bool_mem_nint_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitor_bool_mem_nint, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitor_bool_mem_nlong_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitor_bool_mem_nlong, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitor_bool_mem_lint_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitor_bool_mem_lint, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitor_bool_mem_llong_void, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitor_bool_mem_llong, M_ARITH, ND_BITOR, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_bool_deref_oint_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_bool_deref_oint, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_bool_deref_olong_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_bool_deref_olong, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_bool_deref_nint_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_bool_deref_nint, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_bool_deref_nlong_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_bool_deref_nlong, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_bool_deref_lint_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_bool_deref_lint, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_bool_deref_llong_void, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_bool_deref_llong, M_ARITH, ND_BITXOR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_bool_loc_oint_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_bool_loc_oint, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_bool_loc_olong_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_bool_loc_olong, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_bool_loc_nint_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_bool_loc_nint, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_bool_loc_nlong_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_bool_loc_nlong, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_bool_loc_nuint_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_bitxor_bool_loc_nuint, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_bitxor_bool_loc_lint_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_bool_loc_lint, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_bool_loc_llong_void, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_bool_loc_llong, M_ARITH, ND_BITXOR, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_bitxor_bool_mem_oint_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_bitxor_bool_mem_oint, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_bitxor_bool_mem_olong_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_bitxor_bool_mem_olong, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_bitxor_bool_mem_nint_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_bitxor_bool_mem_nint, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_bitxor_bool_mem_nlong_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_bitxor_bool_mem_nlong, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_bitxor_bool_mem_lint_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_bitxor_bool_mem_lint, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_bitxor_bool_mem_llong_void, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_bitxor_bool_mem_llong, M_ARITH, ND_BITXOR, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_bool_deref_oint_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_bool_deref_oint, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_bool_deref_olong_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_bool_deref_olong, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_bool_deref_nint_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_bool_deref_nint, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_bool_deref_nlong_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_bool_deref_nlong, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_bool_deref_lint_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_bool_deref_lint, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_bool_deref_llong_void, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_bool_deref_llong, M_ARITH, ND_SHL, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_bool_loc_oint_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_bool_loc_oint, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_bool_loc_olong_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_bool_loc_olong, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_bool_loc_nint_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_bool_loc_nint, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_bool_loc_nlong_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_bool_loc_nlong, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_bool_loc_nuint_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shl_bool_loc_nuint, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shl_bool_loc_lint_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_bool_loc_lint, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_bool_loc_llong_void, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_bool_loc_llong, M_ARITH, ND_SHL, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shl_bool_mem_oint_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shl_bool_mem_oint, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shl_bool_mem_olong_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shl_bool_mem_olong, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shl_bool_mem_nint_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shl_bool_mem_nint, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shl_bool_mem_nlong_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shl_bool_mem_nlong, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shl_bool_mem_lint_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shl_bool_mem_lint, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shl_bool_mem_llong_void, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shl_bool_mem_llong, M_ARITH, ND_SHL, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_bool_deref_oint_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_bool_deref_oint, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_bool_deref_olong_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_bool_deref_olong, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_bool_deref_nint_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_bool_deref_nint, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_bool_deref_nlong_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_bool_deref_nlong, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_bool_deref_lint_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_bool_deref_lint, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_bool_deref_llong_void, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_bool_deref_llong, M_ARITH, ND_SAR, L_DEREF, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_bool_loc_oint_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_bool_loc_oint, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_bool_loc_olong_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_bool_loc_olong, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_bool_loc_nint_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_bool_loc_nint, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_bool_loc_nlong_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_bool_loc_nlong, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_bool_loc_nuint_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 1, 0, true, true)
AS(ar_shr_bool_loc_nuint, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 1, 1, 0, false, true)
AS(ar_shr_bool_loc_lint_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_bool_loc_lint, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_bool_loc_llong_void, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_bool_loc_llong, M_ARITH, ND_SAR, L_LOC, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(ar_shr_bool_mem_oint_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 0, 0, 0, true, true)
AS(ar_shr_bool_mem_oint, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 0, 0, 0, false, true)
AS(ar_shr_bool_mem_olong_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 0, 2, 0, true, true)
AS(ar_shr_bool_mem_olong, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 0, 2, 0, false, true)
AS(ar_shr_bool_mem_nint_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(ar_shr_bool_mem_nint, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(ar_shr_bool_mem_nlong_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 1, 2, 0, true, true)
AS(ar_shr_bool_mem_nlong, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 1, 2, 0, false, true)
AS(ar_shr_bool_mem_lint_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 2, 0, 0, true, true)
AS(ar_shr_bool_mem_lint, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 2, 0, 0, false, true)
AS(ar_shr_bool_mem_llong_void, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 2, 2, 0, true, true)
AS(ar_shr_bool_mem_llong, M_ARITH, ND_SAR, L_MEM, 5, -1, 0, 8, 2, 2, 0, false, true)
AS(post_bool_deref_void, M_POST, 0, L_DEREF, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(post_bool_deref, M_POST, 0, L_DEREF, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(post_bool_loc_void, M_POST, 0, L_LOC, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(post_bool_loc, M_POST, 0, L_LOC, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(post_bool_mem_void, M_POST, 0, L_MEM, 5, -1, 0, 8, 1, 0, 0, true, true)
AS(post_bool_mem, M_POST, 0, L_MEM, 5, -1, 0, 8, 1, 0, 0, false, true)
AS(bfr_uchar_1_mem, M_READ, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_1_mem_void, M_ASSIGN, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_1_mem, M_ASSIGN, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_1_mem_plain, M_READ, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_1_mem_plain, M_ASSIGN, 0, L_MEM, 7, 1, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_1_mvar, M_READ, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_1_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_1_mvar, M_ASSIGN, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_1_mvar_plain, M_READ, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 1, 0, 8, 0, 7, 0, false, false)
AS(bfa_add_uchar_1_nint_void, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uchar_1_nint, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uchar_1_oint_void, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uchar_1_oint, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uchar_1_olong_void, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uchar_1_olong, M_ARITH, ND_ADD, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uchar_1_nint_void, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uchar_1_nint, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uchar_1_oint_void, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uchar_1_oint, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uchar_1_olong_void, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uchar_1_olong, M_ARITH, ND_SUB, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uchar_1_nint_void, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uchar_1_nint, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uchar_1_oint_void, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uchar_1_oint, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uchar_1_olong_void, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uchar_1_olong, M_ARITH, ND_DIV, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uchar_1_nint_void, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uchar_1_nint, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uchar_1_oint_void, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uchar_1_oint, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uchar_1_olong_void, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uchar_1_olong, M_ARITH, ND_MOD, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uchar_1_nint_void, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uchar_1_nint, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uchar_1_oint_void, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uchar_1_oint, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uchar_1_olong_void, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uchar_1_olong, M_ARITH, ND_SAR, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uchar_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uchar_1_nint, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uchar_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uchar_1_oint, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uchar_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uchar_1_olong, M_ARITH, ND_BITOR, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uchar_1_nint_void, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uchar_1_nint, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uchar_1_oint_void, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uchar_1_oint, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uchar_1_olong_void, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uchar_1_olong, M_ARITH, ND_MUL, L_MEM, 7, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_uchar_1_void, M_POST, 0, L_MEM, 7, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_uchar_1, M_POST, 0, L_MEM, 7, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_uchar_2_mem, M_READ, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_2_mem_void, M_ASSIGN, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_2_mem, M_ASSIGN, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_2_mem_plain, M_READ, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_2_mem_plain, M_ASSIGN, 0, L_MEM, 7, 2, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_2_mvar, M_READ, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_2_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_2_mvar, M_ASSIGN, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_2_mvar_plain, M_READ, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 2, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_3_mem, M_READ, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_3_mem_void, M_ASSIGN, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_3_mem, M_ASSIGN, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_3_mem_plain, M_READ, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_3_mem_plain, M_ASSIGN, 0, L_MEM, 7, 3, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_3_mvar, M_READ, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_3_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_3_mvar, M_ASSIGN, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_3_mvar_plain, M_READ, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 3, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_4_mem, M_READ, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_4_mem_void, M_ASSIGN, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_4_mem, M_ASSIGN, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_4_mem_plain, M_READ, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_4_mem_plain, M_ASSIGN, 0, L_MEM, 7, 4, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_4_mvar, M_READ, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_4_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_4_mvar, M_ASSIGN, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_4_mvar_plain, M_READ, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 4, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_5_mem, M_READ, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_5_mem_void, M_ASSIGN, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_5_mem, M_ASSIGN, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_5_mem_plain, M_READ, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_5_mem_plain, M_ASSIGN, 0, L_MEM, 7, 5, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_5_mvar, M_READ, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_5_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_5_mvar, M_ASSIGN, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_5_mvar_plain, M_READ, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 5, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_6_mem, M_READ, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_6_mem_void, M_ASSIGN, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_6_mem, M_ASSIGN, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_6_mem_plain, M_READ, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_6_mem_plain, M_ASSIGN, 0, L_MEM, 7, 6, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_6_mvar, M_READ, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_6_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_6_mvar, M_ASSIGN, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_6_mvar_plain, M_READ, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 6, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_7_mem, M_READ, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_7_mem_void, M_ASSIGN, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_7_mem, M_ASSIGN, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_7_mem_plain, M_READ, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_7_mem_plain, M_ASSIGN, 0, L_MEM, 7, 7, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_7_mvar, M_READ, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_7_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_7_mvar, M_ASSIGN, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_7_mvar_plain, M_READ, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 7, 0, 8, 0, 7, 0, false, false)
AS(bfa_add_uchar_7_nint_void, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uchar_7_nint, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uchar_7_oint_void, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uchar_7_oint, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uchar_7_olong_void, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uchar_7_olong, M_ARITH, ND_ADD, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uchar_7_nint_void, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uchar_7_nint, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uchar_7_oint_void, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uchar_7_oint, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uchar_7_olong_void, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uchar_7_olong, M_ARITH, ND_SUB, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uchar_7_nint_void, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uchar_7_nint, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uchar_7_oint_void, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uchar_7_oint, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uchar_7_olong_void, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uchar_7_olong, M_ARITH, ND_DIV, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uchar_7_nint_void, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uchar_7_nint, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uchar_7_oint_void, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uchar_7_oint, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uchar_7_olong_void, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uchar_7_olong, M_ARITH, ND_MOD, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uchar_7_nint_void, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uchar_7_nint, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uchar_7_oint_void, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uchar_7_oint, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uchar_7_olong_void, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uchar_7_olong, M_ARITH, ND_SAR, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uchar_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uchar_7_nint, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uchar_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uchar_7_oint, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uchar_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uchar_7_olong, M_ARITH, ND_BITOR, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uchar_7_nint_void, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uchar_7_nint, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uchar_7_oint_void, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uchar_7_oint, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uchar_7_olong_void, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uchar_7_olong, M_ARITH, ND_MUL, L_MEM, 7, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_uchar_7_void, M_POST, 0, L_MEM, 7, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_uchar_7, M_POST, 0, L_MEM, 7, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_uchar_8_mem, M_READ, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_8_mem_void, M_ASSIGN, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_8_mem, M_ASSIGN, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_8_mem_plain, M_READ, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_8_mem_plain, M_ASSIGN, 0, L_MEM, 7, 8, 0, 8, 0, 7, 0, false, false)
AS(bfr_uchar_8_mvar, M_READ, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, false, true)
AS(bfw_uchar_8_mvar_void, M_ASSIGN, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, true, true)
AS(bfw_uchar_8_mvar, M_ASSIGN, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, false, true)
AS(bfr_uchar_8_mvar_plain, M_READ, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, false, false)
AS(bfw_uchar_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, true, false)
AS(bfw_uchar_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 7, 8, 0, 8, 0, 7, 0, false, false)
AS(bfa_add_uchar_8_nint_void, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uchar_8_nint, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uchar_8_oint_void, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uchar_8_oint, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uchar_8_olong_void, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uchar_8_olong, M_ARITH, ND_ADD, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uchar_8_nint_void, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uchar_8_nint, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uchar_8_oint_void, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uchar_8_oint, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uchar_8_olong_void, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uchar_8_olong, M_ARITH, ND_SUB, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uchar_8_nint_void, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uchar_8_nint, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uchar_8_oint_void, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uchar_8_oint, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uchar_8_olong_void, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uchar_8_olong, M_ARITH, ND_DIV, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uchar_8_nint_void, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uchar_8_nint, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uchar_8_oint_void, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uchar_8_oint, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uchar_8_olong_void, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uchar_8_olong, M_ARITH, ND_MOD, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uchar_8_nint_void, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uchar_8_nint, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uchar_8_oint_void, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uchar_8_oint, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uchar_8_olong_void, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uchar_8_olong, M_ARITH, ND_SAR, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uchar_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uchar_8_nint, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uchar_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uchar_8_oint, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uchar_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uchar_8_olong, M_ARITH, ND_BITOR, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uchar_8_nint_void, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uchar_8_nint, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uchar_8_oint_void, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uchar_8_oint, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uchar_8_olong_void, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uchar_8_olong, M_ARITH, ND_MUL, L_MEM, 7, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_uchar_8_void, M_POST, 0, L_MEM, 7, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_uchar_8, M_POST, 0, L_MEM, 7, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_char_1_mem, M_READ, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_1_mem_void, M_ASSIGN, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_1_mem, M_ASSIGN, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_1_mem_plain, M_READ, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_1_mem_plain, M_ASSIGN, 0, L_MEM, 6, 1, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_1_mvar, M_READ, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_1_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_1_mvar, M_ASSIGN, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_1_mvar_plain, M_READ, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 1, 0, 8, 0, 6, 0, false, false)
AS(bfa_add_char_1_nint_void, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_char_1_nint, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_char_1_oint_void, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_char_1_oint, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_char_1_olong_void, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_char_1_olong, M_ARITH, ND_ADD, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_char_1_nint_void, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_char_1_nint, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_char_1_oint_void, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_char_1_oint, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_char_1_olong_void, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_char_1_olong, M_ARITH, ND_SUB, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_char_1_nint_void, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_char_1_nint, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_char_1_oint_void, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_char_1_oint, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_char_1_olong_void, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_char_1_olong, M_ARITH, ND_DIV, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_char_1_nint_void, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_char_1_nint, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_char_1_oint_void, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_char_1_oint, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_char_1_olong_void, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_char_1_olong, M_ARITH, ND_MOD, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_char_1_nint_void, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_char_1_nint, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_char_1_oint_void, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_char_1_oint, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_char_1_olong_void, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_char_1_olong, M_ARITH, ND_SAR, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_char_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_char_1_nint, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_char_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_char_1_oint, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_char_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_char_1_olong, M_ARITH, ND_BITOR, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_char_1_nint_void, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_char_1_nint, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_char_1_oint_void, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_char_1_oint, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_char_1_olong_void, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_char_1_olong, M_ARITH, ND_MUL, L_MEM, 6, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_char_1_void, M_POST, 0, L_MEM, 6, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_char_1, M_POST, 0, L_MEM, 6, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_char_2_mem, M_READ, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_2_mem_void, M_ASSIGN, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_2_mem, M_ASSIGN, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_2_mem_plain, M_READ, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_2_mem_plain, M_ASSIGN, 0, L_MEM, 6, 2, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_2_mvar, M_READ, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_2_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_2_mvar, M_ASSIGN, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_2_mvar_plain, M_READ, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 2, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_3_mem, M_READ, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_3_mem_void, M_ASSIGN, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_3_mem, M_ASSIGN, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_3_mem_plain, M_READ, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_3_mem_plain, M_ASSIGN, 0, L_MEM, 6, 3, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_3_mvar, M_READ, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_3_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_3_mvar, M_ASSIGN, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_3_mvar_plain, M_READ, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 3, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_4_mem, M_READ, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_4_mem_void, M_ASSIGN, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_4_mem, M_ASSIGN, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_4_mem_plain, M_READ, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_4_mem_plain, M_ASSIGN, 0, L_MEM, 6, 4, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_4_mvar, M_READ, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_4_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_4_mvar, M_ASSIGN, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_4_mvar_plain, M_READ, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 4, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_5_mem, M_READ, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_5_mem_void, M_ASSIGN, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_5_mem, M_ASSIGN, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_5_mem_plain, M_READ, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_5_mem_plain, M_ASSIGN, 0, L_MEM, 6, 5, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_5_mvar, M_READ, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_5_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_5_mvar, M_ASSIGN, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_5_mvar_plain, M_READ, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 5, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_6_mem, M_READ, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_6_mem_void, M_ASSIGN, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_6_mem, M_ASSIGN, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_6_mem_plain, M_READ, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_6_mem_plain, M_ASSIGN, 0, L_MEM, 6, 6, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_6_mvar, M_READ, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_6_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_6_mvar, M_ASSIGN, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_6_mvar_plain, M_READ, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 6, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_7_mem, M_READ, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_7_mem_void, M_ASSIGN, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_7_mem, M_ASSIGN, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_7_mem_plain, M_READ, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_7_mem_plain, M_ASSIGN, 0, L_MEM, 6, 7, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_7_mvar, M_READ, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_7_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_7_mvar, M_ASSIGN, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_7_mvar_plain, M_READ, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 7, 0, 8, 0, 6, 0, false, false)
AS(bfa_add_char_7_nint_void, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_char_7_nint, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_char_7_oint_void, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_char_7_oint, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_char_7_olong_void, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_char_7_olong, M_ARITH, ND_ADD, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_char_7_nint_void, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_char_7_nint, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_char_7_oint_void, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_char_7_oint, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_char_7_olong_void, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_char_7_olong, M_ARITH, ND_SUB, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_char_7_nint_void, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_char_7_nint, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_char_7_oint_void, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_char_7_oint, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_char_7_olong_void, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_char_7_olong, M_ARITH, ND_DIV, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_char_7_nint_void, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_char_7_nint, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_char_7_oint_void, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_char_7_oint, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_char_7_olong_void, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_char_7_olong, M_ARITH, ND_MOD, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_char_7_nint_void, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_char_7_nint, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_char_7_oint_void, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_char_7_oint, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_char_7_olong_void, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_char_7_olong, M_ARITH, ND_SAR, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_char_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_char_7_nint, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_char_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_char_7_oint, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_char_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_char_7_olong, M_ARITH, ND_BITOR, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_char_7_nint_void, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_char_7_nint, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_char_7_oint_void, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_char_7_oint, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_char_7_olong_void, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_char_7_olong, M_ARITH, ND_MUL, L_MEM, 6, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_char_7_void, M_POST, 0, L_MEM, 6, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_char_7, M_POST, 0, L_MEM, 6, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_char_8_mem, M_READ, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_8_mem_void, M_ASSIGN, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_8_mem, M_ASSIGN, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_8_mem_plain, M_READ, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_8_mem_plain, M_ASSIGN, 0, L_MEM, 6, 8, 0, 8, 0, 6, 0, false, false)
AS(bfr_char_8_mvar, M_READ, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, false, true)
AS(bfw_char_8_mvar_void, M_ASSIGN, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, true, true)
AS(bfw_char_8_mvar, M_ASSIGN, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, false, true)
AS(bfr_char_8_mvar_plain, M_READ, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, false, false)
AS(bfw_char_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, true, false)
AS(bfw_char_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 6, 8, 0, 8, 0, 6, 0, false, false)
AS(bfa_add_char_8_nint_void, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_char_8_nint, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_char_8_oint_void, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_char_8_oint, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_char_8_olong_void, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_char_8_olong, M_ARITH, ND_ADD, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_char_8_nint_void, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_char_8_nint, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_char_8_oint_void, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_char_8_oint, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_char_8_olong_void, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_char_8_olong, M_ARITH, ND_SUB, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_char_8_nint_void, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_char_8_nint, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_char_8_oint_void, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_char_8_oint, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_char_8_olong_void, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_char_8_olong, M_ARITH, ND_DIV, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_char_8_nint_void, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_char_8_nint, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_char_8_oint_void, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_char_8_oint, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_char_8_olong_void, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_char_8_olong, M_ARITH, ND_MOD, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_char_8_nint_void, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_char_8_nint, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_char_8_oint_void, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_char_8_oint, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_char_8_olong_void, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_char_8_olong, M_ARITH, ND_SAR, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_char_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_char_8_nint, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_char_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_char_8_oint, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_char_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_char_8_olong, M_ARITH, ND_BITOR, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_char_8_nint_void, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_char_8_nint, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_char_8_oint_void, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_char_8_oint, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_char_8_olong_void, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_char_8_olong, M_ARITH, ND_MUL, L_MEM, 6, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_char_8_void, M_POST, 0, L_MEM, 6, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_char_8, M_POST, 0, L_MEM, 6, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_ushort_1_mem, M_READ, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_1_mem_void, M_ASSIGN, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_1_mem, M_ASSIGN, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_1_mem_plain, M_READ, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_1_mem_plain, M_ASSIGN, 0, L_MEM, 9, 1, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_1_mvar, M_READ, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_1_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_1_mvar, M_ASSIGN, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_1_mvar_plain, M_READ, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 1, 0, 8, 0, 9, 0, false, false)
AS(bfa_add_ushort_1_nint_void, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ushort_1_nint, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ushort_1_oint_void, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ushort_1_oint, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ushort_1_olong_void, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ushort_1_olong, M_ARITH, ND_ADD, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ushort_1_nint_void, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ushort_1_nint, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ushort_1_oint_void, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ushort_1_oint, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ushort_1_olong_void, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ushort_1_olong, M_ARITH, ND_SUB, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ushort_1_nint_void, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ushort_1_nint, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ushort_1_oint_void, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ushort_1_oint, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ushort_1_olong_void, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ushort_1_olong, M_ARITH, ND_DIV, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ushort_1_nint_void, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ushort_1_nint, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ushort_1_oint_void, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ushort_1_oint, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ushort_1_olong_void, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ushort_1_olong, M_ARITH, ND_MOD, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ushort_1_nint_void, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ushort_1_nint, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ushort_1_oint_void, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ushort_1_oint, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ushort_1_olong_void, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ushort_1_olong, M_ARITH, ND_SAR, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ushort_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ushort_1_nint, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ushort_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ushort_1_oint, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ushort_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ushort_1_olong, M_ARITH, ND_BITOR, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ushort_1_nint_void, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ushort_1_nint, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ushort_1_oint_void, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ushort_1_oint, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ushort_1_olong_void, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ushort_1_olong, M_ARITH, ND_MUL, L_MEM, 9, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_ushort_1_void, M_POST, 0, L_MEM, 9, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_ushort_1, M_POST, 0, L_MEM, 9, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_ushort_2_mem, M_READ, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_2_mem_void, M_ASSIGN, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_2_mem, M_ASSIGN, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_2_mem_plain, M_READ, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_2_mem_plain, M_ASSIGN, 0, L_MEM, 9, 2, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_2_mvar, M_READ, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_2_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_2_mvar, M_ASSIGN, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_2_mvar_plain, M_READ, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 2, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_3_mem, M_READ, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_3_mem_void, M_ASSIGN, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_3_mem, M_ASSIGN, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_3_mem_plain, M_READ, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_3_mem_plain, M_ASSIGN, 0, L_MEM, 9, 3, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_3_mvar, M_READ, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_3_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_3_mvar, M_ASSIGN, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_3_mvar_plain, M_READ, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 3, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_4_mem, M_READ, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_4_mem_void, M_ASSIGN, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_4_mem, M_ASSIGN, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_4_mem_plain, M_READ, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_4_mem_plain, M_ASSIGN, 0, L_MEM, 9, 4, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_4_mvar, M_READ, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_4_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_4_mvar, M_ASSIGN, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_4_mvar_plain, M_READ, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 4, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_5_mem, M_READ, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_5_mem_void, M_ASSIGN, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_5_mem, M_ASSIGN, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_5_mem_plain, M_READ, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_5_mem_plain, M_ASSIGN, 0, L_MEM, 9, 5, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_5_mvar, M_READ, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_5_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_5_mvar, M_ASSIGN, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_5_mvar_plain, M_READ, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 5, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_6_mem, M_READ, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_6_mem_void, M_ASSIGN, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_6_mem, M_ASSIGN, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_6_mem_plain, M_READ, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_6_mem_plain, M_ASSIGN, 0, L_MEM, 9, 6, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_6_mvar, M_READ, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_6_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_6_mvar, M_ASSIGN, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_6_mvar_plain, M_READ, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 6, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_7_mem, M_READ, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_7_mem_void, M_ASSIGN, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_7_mem, M_ASSIGN, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_7_mem_plain, M_READ, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_7_mem_plain, M_ASSIGN, 0, L_MEM, 9, 7, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_7_mvar, M_READ, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_7_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_7_mvar, M_ASSIGN, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_7_mvar_plain, M_READ, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 7, 0, 8, 0, 9, 0, false, false)
AS(bfa_add_ushort_7_nint_void, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ushort_7_nint, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ushort_7_oint_void, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ushort_7_oint, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ushort_7_olong_void, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ushort_7_olong, M_ARITH, ND_ADD, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ushort_7_nint_void, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ushort_7_nint, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ushort_7_oint_void, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ushort_7_oint, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ushort_7_olong_void, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ushort_7_olong, M_ARITH, ND_SUB, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ushort_7_nint_void, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ushort_7_nint, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ushort_7_oint_void, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ushort_7_oint, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ushort_7_olong_void, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ushort_7_olong, M_ARITH, ND_DIV, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ushort_7_nint_void, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ushort_7_nint, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ushort_7_oint_void, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ushort_7_oint, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ushort_7_olong_void, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ushort_7_olong, M_ARITH, ND_MOD, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ushort_7_nint_void, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ushort_7_nint, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ushort_7_oint_void, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ushort_7_oint, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ushort_7_olong_void, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ushort_7_olong, M_ARITH, ND_SAR, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ushort_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ushort_7_nint, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ushort_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ushort_7_oint, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ushort_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ushort_7_olong, M_ARITH, ND_BITOR, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ushort_7_nint_void, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ushort_7_nint, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ushort_7_oint_void, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ushort_7_oint, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ushort_7_olong_void, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ushort_7_olong, M_ARITH, ND_MUL, L_MEM, 9, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_ushort_7_void, M_POST, 0, L_MEM, 9, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_ushort_7, M_POST, 0, L_MEM, 9, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_ushort_8_mem, M_READ, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_8_mem_void, M_ASSIGN, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_8_mem, M_ASSIGN, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_8_mem_plain, M_READ, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_8_mem_plain, M_ASSIGN, 0, L_MEM, 9, 8, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_8_mvar, M_READ, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_8_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_8_mvar, M_ASSIGN, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_8_mvar_plain, M_READ, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 8, 0, 8, 0, 9, 0, false, false)
AS(bfa_add_ushort_8_nint_void, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ushort_8_nint, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ushort_8_oint_void, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ushort_8_oint, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ushort_8_olong_void, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ushort_8_olong, M_ARITH, ND_ADD, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ushort_8_nint_void, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ushort_8_nint, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ushort_8_oint_void, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ushort_8_oint, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ushort_8_olong_void, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ushort_8_olong, M_ARITH, ND_SUB, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ushort_8_nint_void, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ushort_8_nint, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ushort_8_oint_void, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ushort_8_oint, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ushort_8_olong_void, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ushort_8_olong, M_ARITH, ND_DIV, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ushort_8_nint_void, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ushort_8_nint, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ushort_8_oint_void, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ushort_8_oint, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ushort_8_olong_void, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ushort_8_olong, M_ARITH, ND_MOD, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ushort_8_nint_void, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ushort_8_nint, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ushort_8_oint_void, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ushort_8_oint, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ushort_8_olong_void, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ushort_8_olong, M_ARITH, ND_SAR, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ushort_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ushort_8_nint, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ushort_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ushort_8_oint, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ushort_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ushort_8_olong, M_ARITH, ND_BITOR, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ushort_8_nint_void, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ushort_8_nint, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ushort_8_oint_void, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ushort_8_oint, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ushort_8_olong_void, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ushort_8_olong, M_ARITH, ND_MUL, L_MEM, 9, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_ushort_8_void, M_POST, 0, L_MEM, 9, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_ushort_8, M_POST, 0, L_MEM, 9, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_ushort_9_mem, M_READ, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_9_mem_void, M_ASSIGN, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_9_mem, M_ASSIGN, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_9_mem_plain, M_READ, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_9_mem_plain, M_ASSIGN, 0, L_MEM, 9, 9, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_9_mvar, M_READ, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_9_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_9_mvar, M_ASSIGN, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_9_mvar_plain, M_READ, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 9, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_10_mem, M_READ, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_10_mem_void, M_ASSIGN, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_10_mem, M_ASSIGN, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_10_mem_plain, M_READ, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_10_mem_plain, M_ASSIGN, 0, L_MEM, 9, 10, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_10_mvar, M_READ, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_10_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_10_mvar, M_ASSIGN, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_10_mvar_plain, M_READ, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 10, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_11_mem, M_READ, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_11_mem_void, M_ASSIGN, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_11_mem, M_ASSIGN, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_11_mem_plain, M_READ, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_11_mem_plain, M_ASSIGN, 0, L_MEM, 9, 11, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_11_mvar, M_READ, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_11_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_11_mvar, M_ASSIGN, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_11_mvar_plain, M_READ, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 11, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_12_mem, M_READ, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_12_mem_void, M_ASSIGN, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_12_mem, M_ASSIGN, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_12_mem_plain, M_READ, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_12_mem_plain, M_ASSIGN, 0, L_MEM, 9, 12, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_12_mvar, M_READ, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_12_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_12_mvar, M_ASSIGN, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_12_mvar_plain, M_READ, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 12, 0, 8, 0, 9, 0, false, false)
AS(bfa_add_ushort_12_nint_void, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ushort_12_nint, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ushort_12_oint_void, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ushort_12_oint, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ushort_12_olong_void, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ushort_12_olong, M_ARITH, ND_ADD, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ushort_12_nint_void, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ushort_12_nint, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ushort_12_oint_void, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ushort_12_oint, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ushort_12_olong_void, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ushort_12_olong, M_ARITH, ND_SUB, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ushort_12_nint_void, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ushort_12_nint, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ushort_12_oint_void, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ushort_12_oint, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ushort_12_olong_void, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ushort_12_olong, M_ARITH, ND_DIV, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ushort_12_nint_void, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ushort_12_nint, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ushort_12_oint_void, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ushort_12_oint, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ushort_12_olong_void, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ushort_12_olong, M_ARITH, ND_MOD, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ushort_12_nint_void, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ushort_12_nint, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ushort_12_oint_void, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ushort_12_oint, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ushort_12_olong_void, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ushort_12_olong, M_ARITH, ND_SAR, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ushort_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ushort_12_nint, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ushort_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ushort_12_oint, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ushort_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ushort_12_olong, M_ARITH, ND_BITOR, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ushort_12_nint_void, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ushort_12_nint, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ushort_12_oint_void, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ushort_12_oint, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ushort_12_olong_void, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ushort_12_olong, M_ARITH, ND_MUL, L_MEM, 9, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_ushort_12_void, M_POST, 0, L_MEM, 9, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_ushort_12, M_POST, 0, L_MEM, 9, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_ushort_13_mem, M_READ, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_13_mem_void, M_ASSIGN, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_13_mem, M_ASSIGN, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_13_mem_plain, M_READ, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_13_mem_plain, M_ASSIGN, 0, L_MEM, 9, 13, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_13_mvar, M_READ, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_13_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_13_mvar, M_ASSIGN, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_13_mvar_plain, M_READ, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 13, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_14_mem, M_READ, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_14_mem_void, M_ASSIGN, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_14_mem, M_ASSIGN, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_14_mem_plain, M_READ, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_14_mem_plain, M_ASSIGN, 0, L_MEM, 9, 14, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_14_mvar, M_READ, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_14_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_14_mvar, M_ASSIGN, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_14_mvar_plain, M_READ, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 14, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_15_mem, M_READ, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_15_mem_void, M_ASSIGN, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_15_mem, M_ASSIGN, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_15_mem_plain, M_READ, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_15_mem_plain, M_ASSIGN, 0, L_MEM, 9, 15, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_15_mvar, M_READ, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_15_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_15_mvar, M_ASSIGN, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_15_mvar_plain, M_READ, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 15, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_16_mem, M_READ, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_16_mem_void, M_ASSIGN, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_16_mem, M_ASSIGN, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_16_mem_plain, M_READ, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_16_mem_plain, M_ASSIGN, 0, L_MEM, 9, 16, 0, 8, 0, 9, 0, false, false)
AS(bfr_ushort_16_mvar, M_READ, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, false, true)
AS(bfw_ushort_16_mvar_void, M_ASSIGN, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, true, true)
AS(bfw_ushort_16_mvar, M_ASSIGN, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, false, true)
AS(bfr_ushort_16_mvar_plain, M_READ, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, false, false)
AS(bfw_ushort_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, true, false)
AS(bfw_ushort_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 9, 16, 0, 8, 0, 9, 0, false, false)
AS(bfa_add_ushort_16_nint_void, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ushort_16_nint, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ushort_16_oint_void, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ushort_16_oint, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ushort_16_olong_void, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ushort_16_olong, M_ARITH, ND_ADD, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ushort_16_nint_void, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ushort_16_nint, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ushort_16_oint_void, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ushort_16_oint, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ushort_16_olong_void, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ushort_16_olong, M_ARITH, ND_SUB, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ushort_16_nint_void, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ushort_16_nint, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ushort_16_oint_void, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ushort_16_oint, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ushort_16_olong_void, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ushort_16_olong, M_ARITH, ND_DIV, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ushort_16_nint_void, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ushort_16_nint, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ushort_16_oint_void, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ushort_16_oint, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ushort_16_olong_void, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ushort_16_olong, M_ARITH, ND_MOD, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ushort_16_nint_void, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ushort_16_nint, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ushort_16_oint_void, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ushort_16_oint, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ushort_16_olong_void, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ushort_16_olong, M_ARITH, ND_SAR, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ushort_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ushort_16_nint, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ushort_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ushort_16_oint, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ushort_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ushort_16_olong, M_ARITH, ND_BITOR, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ushort_16_nint_void, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ushort_16_nint, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ushort_16_oint_void, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ushort_16_oint, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ushort_16_olong_void, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ushort_16_olong, M_ARITH, ND_MUL, L_MEM, 9, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_ushort_16_void, M_POST, 0, L_MEM, 9, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_ushort_16, M_POST, 0, L_MEM, 9, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_short_1_mem, M_READ, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_1_mem_void, M_ASSIGN, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_1_mem, M_ASSIGN, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_1_mem_plain, M_READ, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_1_mem_plain, M_ASSIGN, 0, L_MEM, 8, 1, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_1_mvar, M_READ, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_1_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_1_mvar, M_ASSIGN, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_1_mvar_plain, M_READ, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 1, 0, 8, 0, 8, 0, false, false)
AS(bfa_add_short_1_nint_void, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_short_1_nint, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_short_1_oint_void, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_short_1_oint, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_short_1_olong_void, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_short_1_olong, M_ARITH, ND_ADD, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_short_1_nint_void, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_short_1_nint, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_short_1_oint_void, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_short_1_oint, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_short_1_olong_void, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_short_1_olong, M_ARITH, ND_SUB, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_short_1_nint_void, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_short_1_nint, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_short_1_oint_void, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_short_1_oint, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_short_1_olong_void, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_short_1_olong, M_ARITH, ND_DIV, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_short_1_nint_void, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_short_1_nint, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_short_1_oint_void, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_short_1_oint, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_short_1_olong_void, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_short_1_olong, M_ARITH, ND_MOD, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_short_1_nint_void, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_short_1_nint, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_short_1_oint_void, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_short_1_oint, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_short_1_olong_void, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_short_1_olong, M_ARITH, ND_SAR, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_short_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_short_1_nint, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_short_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_short_1_oint, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_short_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_short_1_olong, M_ARITH, ND_BITOR, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_short_1_nint_void, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_short_1_nint, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_short_1_oint_void, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_short_1_oint, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_short_1_olong_void, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_short_1_olong, M_ARITH, ND_MUL, L_MEM, 8, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_short_1_void, M_POST, 0, L_MEM, 8, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_short_1, M_POST, 0, L_MEM, 8, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_short_2_mem, M_READ, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_2_mem_void, M_ASSIGN, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_2_mem, M_ASSIGN, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_2_mem_plain, M_READ, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_2_mem_plain, M_ASSIGN, 0, L_MEM, 8, 2, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_2_mvar, M_READ, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_2_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_2_mvar, M_ASSIGN, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_2_mvar_plain, M_READ, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 2, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_3_mem, M_READ, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_3_mem_void, M_ASSIGN, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_3_mem, M_ASSIGN, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_3_mem_plain, M_READ, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_3_mem_plain, M_ASSIGN, 0, L_MEM, 8, 3, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_3_mvar, M_READ, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_3_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_3_mvar, M_ASSIGN, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_3_mvar_plain, M_READ, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 3, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_4_mem, M_READ, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_4_mem_void, M_ASSIGN, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_4_mem, M_ASSIGN, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_4_mem_plain, M_READ, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_4_mem_plain, M_ASSIGN, 0, L_MEM, 8, 4, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_4_mvar, M_READ, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_4_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_4_mvar, M_ASSIGN, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_4_mvar_plain, M_READ, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 4, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_5_mem, M_READ, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_5_mem_void, M_ASSIGN, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_5_mem, M_ASSIGN, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_5_mem_plain, M_READ, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_5_mem_plain, M_ASSIGN, 0, L_MEM, 8, 5, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_5_mvar, M_READ, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_5_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_5_mvar, M_ASSIGN, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_5_mvar_plain, M_READ, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 5, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_6_mem, M_READ, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_6_mem_void, M_ASSIGN, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_6_mem, M_ASSIGN, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_6_mem_plain, M_READ, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_6_mem_plain, M_ASSIGN, 0, L_MEM, 8, 6, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_6_mvar, M_READ, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_6_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_6_mvar, M_ASSIGN, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_6_mvar_plain, M_READ, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 6, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_7_mem, M_READ, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_7_mem_void, M_ASSIGN, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_7_mem, M_ASSIGN, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_7_mem_plain, M_READ, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_7_mem_plain, M_ASSIGN, 0, L_MEM, 8, 7, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_7_mvar, M_READ, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_7_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_7_mvar, M_ASSIGN, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_7_mvar_plain, M_READ, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 7, 0, 8, 0, 8, 0, false, false)
AS(bfa_add_short_7_nint_void, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_short_7_nint, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_short_7_oint_void, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_short_7_oint, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_short_7_olong_void, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_short_7_olong, M_ARITH, ND_ADD, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_short_7_nint_void, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_short_7_nint, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_short_7_oint_void, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_short_7_oint, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_short_7_olong_void, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_short_7_olong, M_ARITH, ND_SUB, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_short_7_nint_void, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_short_7_nint, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_short_7_oint_void, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_short_7_oint, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_short_7_olong_void, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_short_7_olong, M_ARITH, ND_DIV, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_short_7_nint_void, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_short_7_nint, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_short_7_oint_void, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_short_7_oint, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_short_7_olong_void, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_short_7_olong, M_ARITH, ND_MOD, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_short_7_nint_void, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_short_7_nint, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_short_7_oint_void, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_short_7_oint, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_short_7_olong_void, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_short_7_olong, M_ARITH, ND_SAR, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_short_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_short_7_nint, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_short_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_short_7_oint, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_short_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_short_7_olong, M_ARITH, ND_BITOR, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_short_7_nint_void, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_short_7_nint, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_short_7_oint_void, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_short_7_oint, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_short_7_olong_void, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_short_7_olong, M_ARITH, ND_MUL, L_MEM, 8, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_short_7_void, M_POST, 0, L_MEM, 8, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_short_7, M_POST, 0, L_MEM, 8, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_short_8_mem, M_READ, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_8_mem_void, M_ASSIGN, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_8_mem, M_ASSIGN, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_8_mem_plain, M_READ, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_8_mem_plain, M_ASSIGN, 0, L_MEM, 8, 8, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_8_mvar, M_READ, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_8_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_8_mvar, M_ASSIGN, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_8_mvar_plain, M_READ, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 8, 0, 8, 0, 8, 0, false, false)
AS(bfa_add_short_8_nint_void, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_short_8_nint, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_short_8_oint_void, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_short_8_oint, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_short_8_olong_void, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_short_8_olong, M_ARITH, ND_ADD, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_short_8_nint_void, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_short_8_nint, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_short_8_oint_void, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_short_8_oint, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_short_8_olong_void, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_short_8_olong, M_ARITH, ND_SUB, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_short_8_nint_void, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_short_8_nint, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_short_8_oint_void, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_short_8_oint, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_short_8_olong_void, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_short_8_olong, M_ARITH, ND_DIV, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_short_8_nint_void, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_short_8_nint, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_short_8_oint_void, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_short_8_oint, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_short_8_olong_void, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_short_8_olong, M_ARITH, ND_MOD, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_short_8_nint_void, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_short_8_nint, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_short_8_oint_void, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_short_8_oint, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_short_8_olong_void, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_short_8_olong, M_ARITH, ND_SAR, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_short_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_short_8_nint, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_short_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_short_8_oint, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_short_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_short_8_olong, M_ARITH, ND_BITOR, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_short_8_nint_void, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_short_8_nint, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_short_8_oint_void, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_short_8_oint, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_short_8_olong_void, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_short_8_olong, M_ARITH, ND_MUL, L_MEM, 8, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_short_8_void, M_POST, 0, L_MEM, 8, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_short_8, M_POST, 0, L_MEM, 8, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_short_9_mem, M_READ, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_9_mem_void, M_ASSIGN, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_9_mem, M_ASSIGN, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_9_mem_plain, M_READ, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_9_mem_plain, M_ASSIGN, 0, L_MEM, 8, 9, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_9_mvar, M_READ, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_9_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_9_mvar, M_ASSIGN, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_9_mvar_plain, M_READ, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 9, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_10_mem, M_READ, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_10_mem_void, M_ASSIGN, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_10_mem, M_ASSIGN, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_10_mem_plain, M_READ, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_10_mem_plain, M_ASSIGN, 0, L_MEM, 8, 10, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_10_mvar, M_READ, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_10_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_10_mvar, M_ASSIGN, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_10_mvar_plain, M_READ, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 10, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_11_mem, M_READ, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_11_mem_void, M_ASSIGN, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_11_mem, M_ASSIGN, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_11_mem_plain, M_READ, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_11_mem_plain, M_ASSIGN, 0, L_MEM, 8, 11, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_11_mvar, M_READ, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_11_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_11_mvar, M_ASSIGN, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_11_mvar_plain, M_READ, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 11, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_12_mem, M_READ, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_12_mem_void, M_ASSIGN, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_12_mem, M_ASSIGN, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_12_mem_plain, M_READ, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_12_mem_plain, M_ASSIGN, 0, L_MEM, 8, 12, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_12_mvar, M_READ, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_12_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_12_mvar, M_ASSIGN, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_12_mvar_plain, M_READ, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 12, 0, 8, 0, 8, 0, false, false)
AS(bfa_add_short_12_nint_void, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_short_12_nint, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_short_12_oint_void, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_short_12_oint, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_short_12_olong_void, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_short_12_olong, M_ARITH, ND_ADD, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_short_12_nint_void, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_short_12_nint, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_short_12_oint_void, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_short_12_oint, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_short_12_olong_void, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_short_12_olong, M_ARITH, ND_SUB, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_short_12_nint_void, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_short_12_nint, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_short_12_oint_void, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_short_12_oint, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_short_12_olong_void, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_short_12_olong, M_ARITH, ND_DIV, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_short_12_nint_void, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_short_12_nint, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_short_12_oint_void, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_short_12_oint, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_short_12_olong_void, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_short_12_olong, M_ARITH, ND_MOD, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_short_12_nint_void, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_short_12_nint, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_short_12_oint_void, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_short_12_oint, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_short_12_olong_void, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_short_12_olong, M_ARITH, ND_SAR, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_short_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_short_12_nint, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_short_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_short_12_oint, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_short_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_short_12_olong, M_ARITH, ND_BITOR, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_short_12_nint_void, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_short_12_nint, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_short_12_oint_void, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_short_12_oint, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_short_12_olong_void, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_short_12_olong, M_ARITH, ND_MUL, L_MEM, 8, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_short_12_void, M_POST, 0, L_MEM, 8, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_short_12, M_POST, 0, L_MEM, 8, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_short_13_mem, M_READ, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_13_mem_void, M_ASSIGN, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_13_mem, M_ASSIGN, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_13_mem_plain, M_READ, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_13_mem_plain, M_ASSIGN, 0, L_MEM, 8, 13, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_13_mvar, M_READ, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_13_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_13_mvar, M_ASSIGN, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_13_mvar_plain, M_READ, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 13, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_14_mem, M_READ, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_14_mem_void, M_ASSIGN, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_14_mem, M_ASSIGN, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_14_mem_plain, M_READ, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_14_mem_plain, M_ASSIGN, 0, L_MEM, 8, 14, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_14_mvar, M_READ, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_14_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_14_mvar, M_ASSIGN, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_14_mvar_plain, M_READ, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 14, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_15_mem, M_READ, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_15_mem_void, M_ASSIGN, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_15_mem, M_ASSIGN, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_15_mem_plain, M_READ, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_15_mem_plain, M_ASSIGN, 0, L_MEM, 8, 15, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_15_mvar, M_READ, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_15_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_15_mvar, M_ASSIGN, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_15_mvar_plain, M_READ, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 15, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_16_mem, M_READ, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_16_mem_void, M_ASSIGN, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_16_mem, M_ASSIGN, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_16_mem_plain, M_READ, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_16_mem_plain, M_ASSIGN, 0, L_MEM, 8, 16, 0, 8, 0, 8, 0, false, false)
AS(bfr_short_16_mvar, M_READ, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, false, true)
AS(bfw_short_16_mvar_void, M_ASSIGN, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, true, true)
AS(bfw_short_16_mvar, M_ASSIGN, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, false, true)
AS(bfr_short_16_mvar_plain, M_READ, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, false, false)
AS(bfw_short_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, true, false)
AS(bfw_short_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 8, 16, 0, 8, 0, 8, 0, false, false)
AS(bfa_add_short_16_nint_void, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_short_16_nint, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_short_16_oint_void, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_short_16_oint, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_short_16_olong_void, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_short_16_olong, M_ARITH, ND_ADD, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_short_16_nint_void, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_short_16_nint, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_short_16_oint_void, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_short_16_oint, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_short_16_olong_void, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_short_16_olong, M_ARITH, ND_SUB, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_short_16_nint_void, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_short_16_nint, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_short_16_oint_void, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_short_16_oint, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_short_16_olong_void, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_short_16_olong, M_ARITH, ND_DIV, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_short_16_nint_void, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_short_16_nint, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_short_16_oint_void, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_short_16_oint, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_short_16_olong_void, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_short_16_olong, M_ARITH, ND_MOD, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_short_16_nint_void, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_short_16_nint, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_short_16_oint_void, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_short_16_oint, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_short_16_olong_void, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_short_16_olong, M_ARITH, ND_SAR, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_short_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_short_16_nint, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_short_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_short_16_oint, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_short_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_short_16_olong, M_ARITH, ND_BITOR, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_short_16_nint_void, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_short_16_nint, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_short_16_oint_void, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_short_16_oint, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_short_16_olong_void, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_short_16_olong, M_ARITH, ND_MUL, L_MEM, 8, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_short_16_void, M_POST, 0, L_MEM, 8, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_short_16, M_POST, 0, L_MEM, 8, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_1_mem, M_READ, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_1_mem_void, M_ASSIGN, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_1_mem, M_ASSIGN, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_1_mem_plain, M_READ, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_1_mem_plain, M_ASSIGN, 0, L_MEM, 1, 1, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_1_mvar, M_READ, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_1_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_1_mvar, M_ASSIGN, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_1_mvar_plain, M_READ, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 1, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_1_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_1_nint, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_1_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_1_oint, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_1_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_1_olong, M_ARITH, ND_ADD, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_1_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_1_nint, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_1_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_1_oint, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_1_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_1_olong, M_ARITH, ND_SUB, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_1_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_1_nint, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_1_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_1_oint, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_1_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_1_olong, M_ARITH, ND_DIV, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_1_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_1_nint, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_1_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_1_oint, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_1_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_1_olong, M_ARITH, ND_MOD, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_1_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_1_nint, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_1_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_1_oint, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_1_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_1_olong, M_ARITH, ND_SAR, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_1_nint, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_1_oint, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_1_olong, M_ARITH, ND_BITOR, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_1_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_1_nint, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_1_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_1_oint, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_1_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_1_olong, M_ARITH, ND_MUL, L_MEM, 1, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_1_void, M_POST, 0, L_MEM, 1, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_1, M_POST, 0, L_MEM, 1, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_2_mem, M_READ, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_2_mem_void, M_ASSIGN, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_2_mem, M_ASSIGN, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_2_mem_plain, M_READ, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_2_mem_plain, M_ASSIGN, 0, L_MEM, 1, 2, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_2_mvar, M_READ, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_2_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_2_mvar, M_ASSIGN, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_2_mvar_plain, M_READ, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 2, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_3_mem, M_READ, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_3_mem_void, M_ASSIGN, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_3_mem, M_ASSIGN, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_3_mem_plain, M_READ, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_3_mem_plain, M_ASSIGN, 0, L_MEM, 1, 3, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_3_mvar, M_READ, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_3_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_3_mvar, M_ASSIGN, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_3_mvar_plain, M_READ, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 3, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_4_mem, M_READ, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_4_mem_void, M_ASSIGN, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_4_mem, M_ASSIGN, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_4_mem_plain, M_READ, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_4_mem_plain, M_ASSIGN, 0, L_MEM, 1, 4, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_4_mvar, M_READ, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_4_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_4_mvar, M_ASSIGN, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_4_mvar_plain, M_READ, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 4, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_5_mem, M_READ, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_5_mem_void, M_ASSIGN, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_5_mem, M_ASSIGN, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_5_mem_plain, M_READ, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_5_mem_plain, M_ASSIGN, 0, L_MEM, 1, 5, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_5_mvar, M_READ, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_5_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_5_mvar, M_ASSIGN, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_5_mvar_plain, M_READ, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 5, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_6_mem, M_READ, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_6_mem_void, M_ASSIGN, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_6_mem, M_ASSIGN, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_6_mem_plain, M_READ, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_6_mem_plain, M_ASSIGN, 0, L_MEM, 1, 6, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_6_mvar, M_READ, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_6_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_6_mvar, M_ASSIGN, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_6_mvar_plain, M_READ, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 6, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_7_mem, M_READ, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_7_mem_void, M_ASSIGN, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_7_mem, M_ASSIGN, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_7_mem_plain, M_READ, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_7_mem_plain, M_ASSIGN, 0, L_MEM, 1, 7, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_7_mvar, M_READ, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_7_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_7_mvar, M_ASSIGN, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_7_mvar_plain, M_READ, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 7, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_7_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_7_nint, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_7_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_7_oint, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_7_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_7_olong, M_ARITH, ND_ADD, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_7_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_7_nint, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_7_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_7_oint, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_7_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_7_olong, M_ARITH, ND_SUB, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_7_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_7_nint, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_7_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_7_oint, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_7_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_7_olong, M_ARITH, ND_DIV, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_7_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_7_nint, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_7_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_7_oint, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_7_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_7_olong, M_ARITH, ND_MOD, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_7_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_7_nint, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_7_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_7_oint, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_7_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_7_olong, M_ARITH, ND_SAR, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_7_nint, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_7_oint, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_7_olong, M_ARITH, ND_BITOR, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_7_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_7_nint, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_7_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_7_oint, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_7_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_7_olong, M_ARITH, ND_MUL, L_MEM, 1, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_7_void, M_POST, 0, L_MEM, 1, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_7, M_POST, 0, L_MEM, 1, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_8_mem, M_READ, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_8_mem_void, M_ASSIGN, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_8_mem, M_ASSIGN, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_8_mem_plain, M_READ, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_8_mem_plain, M_ASSIGN, 0, L_MEM, 1, 8, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_8_mvar, M_READ, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_8_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_8_mvar, M_ASSIGN, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_8_mvar_plain, M_READ, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 8, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_8_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_8_nint, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_8_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_8_oint, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_8_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_8_olong, M_ARITH, ND_ADD, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_8_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_8_nint, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_8_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_8_oint, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_8_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_8_olong, M_ARITH, ND_SUB, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_8_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_8_nint, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_8_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_8_oint, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_8_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_8_olong, M_ARITH, ND_DIV, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_8_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_8_nint, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_8_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_8_oint, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_8_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_8_olong, M_ARITH, ND_MOD, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_8_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_8_nint, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_8_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_8_oint, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_8_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_8_olong, M_ARITH, ND_SAR, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_8_nint, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_8_oint, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_8_olong, M_ARITH, ND_BITOR, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_8_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_8_nint, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_8_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_8_oint, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_8_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_8_olong, M_ARITH, ND_MUL, L_MEM, 1, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_8_void, M_POST, 0, L_MEM, 1, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_8, M_POST, 0, L_MEM, 1, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_9_mem, M_READ, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_9_mem_void, M_ASSIGN, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_9_mem, M_ASSIGN, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_9_mem_plain, M_READ, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_9_mem_plain, M_ASSIGN, 0, L_MEM, 1, 9, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_9_mvar, M_READ, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_9_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_9_mvar, M_ASSIGN, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_9_mvar_plain, M_READ, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 9, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_10_mem, M_READ, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_10_mem_void, M_ASSIGN, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_10_mem, M_ASSIGN, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_10_mem_plain, M_READ, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_10_mem_plain, M_ASSIGN, 0, L_MEM, 1, 10, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_10_mvar, M_READ, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_10_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_10_mvar, M_ASSIGN, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_10_mvar_plain, M_READ, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 10, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_11_mem, M_READ, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_11_mem_void, M_ASSIGN, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_11_mem, M_ASSIGN, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_11_mem_plain, M_READ, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_11_mem_plain, M_ASSIGN, 0, L_MEM, 1, 11, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_11_mvar, M_READ, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_11_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_11_mvar, M_ASSIGN, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_11_mvar_plain, M_READ, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 11, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_12_mem, M_READ, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_12_mem_void, M_ASSIGN, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_12_mem, M_ASSIGN, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_12_mem_plain, M_READ, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_12_mem_plain, M_ASSIGN, 0, L_MEM, 1, 12, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_12_mvar, M_READ, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_12_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_12_mvar, M_ASSIGN, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_12_mvar_plain, M_READ, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 12, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_12_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_12_nint, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_12_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_12_oint, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_12_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_12_olong, M_ARITH, ND_ADD, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_12_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_12_nint, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_12_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_12_oint, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_12_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_12_olong, M_ARITH, ND_SUB, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_12_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_12_nint, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_12_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_12_oint, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_12_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_12_olong, M_ARITH, ND_DIV, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_12_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_12_nint, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_12_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_12_oint, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_12_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_12_olong, M_ARITH, ND_MOD, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_12_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_12_nint, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_12_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_12_oint, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_12_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_12_olong, M_ARITH, ND_SAR, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_12_nint, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_12_oint, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_12_olong, M_ARITH, ND_BITOR, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_12_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_12_nint, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_12_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_12_oint, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_12_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_12_olong, M_ARITH, ND_MUL, L_MEM, 1, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_12_void, M_POST, 0, L_MEM, 1, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_12, M_POST, 0, L_MEM, 1, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_13_mem, M_READ, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_13_mem_void, M_ASSIGN, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_13_mem, M_ASSIGN, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_13_mem_plain, M_READ, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_13_mem_plain, M_ASSIGN, 0, L_MEM, 1, 13, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_13_mvar, M_READ, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_13_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_13_mvar, M_ASSIGN, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_13_mvar_plain, M_READ, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 13, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_14_mem, M_READ, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_14_mem_void, M_ASSIGN, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_14_mem, M_ASSIGN, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_14_mem_plain, M_READ, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_14_mem_plain, M_ASSIGN, 0, L_MEM, 1, 14, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_14_mvar, M_READ, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_14_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_14_mvar, M_ASSIGN, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_14_mvar_plain, M_READ, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 14, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_15_mem, M_READ, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_15_mem_void, M_ASSIGN, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_15_mem, M_ASSIGN, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_15_mem_plain, M_READ, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_15_mem_plain, M_ASSIGN, 0, L_MEM, 1, 15, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_15_mvar, M_READ, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_15_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_15_mvar, M_ASSIGN, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_15_mvar_plain, M_READ, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 15, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_16_mem, M_READ, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_16_mem_void, M_ASSIGN, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_16_mem, M_ASSIGN, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_16_mem_plain, M_READ, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_16_mem_plain, M_ASSIGN, 0, L_MEM, 1, 16, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_16_mvar, M_READ, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_16_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_16_mvar, M_ASSIGN, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_16_mvar_plain, M_READ, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 16, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_16_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_16_nint, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_16_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_16_oint, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_16_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_16_olong, M_ARITH, ND_ADD, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_16_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_16_nint, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_16_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_16_oint, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_16_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_16_olong, M_ARITH, ND_SUB, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_16_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_16_nint, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_16_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_16_oint, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_16_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_16_olong, M_ARITH, ND_DIV, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_16_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_16_nint, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_16_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_16_oint, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_16_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_16_olong, M_ARITH, ND_MOD, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_16_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_16_nint, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_16_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_16_oint, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_16_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_16_olong, M_ARITH, ND_SAR, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_16_nint, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_16_oint, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_16_olong, M_ARITH, ND_BITOR, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_16_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_16_nint, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_16_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_16_oint, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_16_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_16_olong, M_ARITH, ND_MUL, L_MEM, 1, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_16_void, M_POST, 0, L_MEM, 1, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_16, M_POST, 0, L_MEM, 1, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_17_mem, M_READ, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_17_mem_void, M_ASSIGN, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_17_mem, M_ASSIGN, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_17_mem_plain, M_READ, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_17_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_17_mem_plain, M_ASSIGN, 0, L_MEM, 1, 17, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_17_mvar, M_READ, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_17_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_17_mvar, M_ASSIGN, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_17_mvar_plain, M_READ, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_17_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_17_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 17, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_18_mem, M_READ, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_18_mem_void, M_ASSIGN, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_18_mem, M_ASSIGN, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_18_mem_plain, M_READ, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_18_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_18_mem_plain, M_ASSIGN, 0, L_MEM, 1, 18, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_18_mvar, M_READ, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_18_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_18_mvar, M_ASSIGN, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_18_mvar_plain, M_READ, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_18_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_18_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 18, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_19_mem, M_READ, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_19_mem_void, M_ASSIGN, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_19_mem, M_ASSIGN, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_19_mem_plain, M_READ, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_19_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_19_mem_plain, M_ASSIGN, 0, L_MEM, 1, 19, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_19_mvar, M_READ, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_19_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_19_mvar, M_ASSIGN, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_19_mvar_plain, M_READ, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_19_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_19_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 19, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_20_mem, M_READ, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_20_mem_void, M_ASSIGN, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_20_mem, M_ASSIGN, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_20_mem_plain, M_READ, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_20_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_20_mem_plain, M_ASSIGN, 0, L_MEM, 1, 20, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_20_mvar, M_READ, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_20_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_20_mvar, M_ASSIGN, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_20_mvar_plain, M_READ, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_20_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_20_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 20, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_20_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_20_nint, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_20_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_20_oint, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_20_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_20_olong, M_ARITH, ND_ADD, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_20_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_20_nint, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_20_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_20_oint, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_20_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_20_olong, M_ARITH, ND_SUB, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_20_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_20_nint, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_20_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_20_oint, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_20_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_20_olong, M_ARITH, ND_DIV, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_20_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_20_nint, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_20_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_20_oint, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_20_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_20_olong, M_ARITH, ND_MOD, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_20_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_20_nint, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_20_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_20_oint, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_20_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_20_olong, M_ARITH, ND_SAR, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_20_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_20_nint, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_20_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_20_oint, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_20_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_20_olong, M_ARITH, ND_BITOR, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_20_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_20_nint, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_20_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_20_oint, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_20_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_20_olong, M_ARITH, ND_MUL, L_MEM, 1, 20, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_20_void, M_POST, 0, L_MEM, 1, 20, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_20, M_POST, 0, L_MEM, 1, 20, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_21_mem, M_READ, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_21_mem_void, M_ASSIGN, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_21_mem, M_ASSIGN, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_21_mem_plain, M_READ, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_21_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_21_mem_plain, M_ASSIGN, 0, L_MEM, 1, 21, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_21_mvar, M_READ, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_21_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_21_mvar, M_ASSIGN, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_21_mvar_plain, M_READ, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_21_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_21_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 21, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_22_mem, M_READ, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_22_mem_void, M_ASSIGN, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_22_mem, M_ASSIGN, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_22_mem_plain, M_READ, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_22_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_22_mem_plain, M_ASSIGN, 0, L_MEM, 1, 22, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_22_mvar, M_READ, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_22_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_22_mvar, M_ASSIGN, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_22_mvar_plain, M_READ, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_22_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_22_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 22, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_23_mem, M_READ, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_23_mem_void, M_ASSIGN, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_23_mem, M_ASSIGN, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_23_mem_plain, M_READ, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_23_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_23_mem_plain, M_ASSIGN, 0, L_MEM, 1, 23, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_23_mvar, M_READ, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_23_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_23_mvar, M_ASSIGN, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_23_mvar_plain, M_READ, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_23_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_23_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 23, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_24_mem, M_READ, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_24_mem_void, M_ASSIGN, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_24_mem, M_ASSIGN, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_24_mem_plain, M_READ, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_24_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_24_mem_plain, M_ASSIGN, 0, L_MEM, 1, 24, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_24_mvar, M_READ, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_24_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_24_mvar, M_ASSIGN, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_24_mvar_plain, M_READ, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_24_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_24_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 24, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_25_mem, M_READ, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_25_mem_void, M_ASSIGN, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_25_mem, M_ASSIGN, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_25_mem_plain, M_READ, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_25_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_25_mem_plain, M_ASSIGN, 0, L_MEM, 1, 25, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_25_mvar, M_READ, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_25_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_25_mvar, M_ASSIGN, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_25_mvar_plain, M_READ, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_25_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_25_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 25, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_26_mem, M_READ, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_26_mem_void, M_ASSIGN, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_26_mem, M_ASSIGN, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_26_mem_plain, M_READ, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_26_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_26_mem_plain, M_ASSIGN, 0, L_MEM, 1, 26, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_26_mvar, M_READ, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_26_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_26_mvar, M_ASSIGN, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_26_mvar_plain, M_READ, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_26_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_26_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 26, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_27_mem, M_READ, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_27_mem_void, M_ASSIGN, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_27_mem, M_ASSIGN, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_27_mem_plain, M_READ, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_27_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_27_mem_plain, M_ASSIGN, 0, L_MEM, 1, 27, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_27_mvar, M_READ, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_27_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_27_mvar, M_ASSIGN, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_27_mvar_plain, M_READ, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_27_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_27_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 27, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_28_mem, M_READ, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_28_mem_void, M_ASSIGN, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_28_mem, M_ASSIGN, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_28_mem_plain, M_READ, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_28_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_28_mem_plain, M_ASSIGN, 0, L_MEM, 1, 28, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_28_mvar, M_READ, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_28_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_28_mvar, M_ASSIGN, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_28_mvar_plain, M_READ, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_28_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_28_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 28, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_29_mem, M_READ, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_29_mem_void, M_ASSIGN, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_29_mem, M_ASSIGN, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_29_mem_plain, M_READ, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_29_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_29_mem_plain, M_ASSIGN, 0, L_MEM, 1, 29, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_29_mvar, M_READ, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_29_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_29_mvar, M_ASSIGN, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_29_mvar_plain, M_READ, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_29_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_29_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 29, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_30_mem, M_READ, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_30_mem_void, M_ASSIGN, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_30_mem, M_ASSIGN, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_30_mem_plain, M_READ, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_30_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_30_mem_plain, M_ASSIGN, 0, L_MEM, 1, 30, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_30_mvar, M_READ, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_30_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_30_mvar, M_ASSIGN, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_30_mvar_plain, M_READ, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_30_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_30_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 30, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_31_mem, M_READ, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_31_mem_void, M_ASSIGN, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_31_mem, M_ASSIGN, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_31_mem_plain, M_READ, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_31_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_31_mem_plain, M_ASSIGN, 0, L_MEM, 1, 31, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_31_mvar, M_READ, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_31_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_31_mvar, M_ASSIGN, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_31_mvar_plain, M_READ, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_31_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_31_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 31, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_31_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_31_nint, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_31_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_31_oint, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_31_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_31_olong, M_ARITH, ND_ADD, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_31_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_31_nint, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_31_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_31_oint, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_31_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_31_olong, M_ARITH, ND_SUB, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_31_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_31_nint, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_31_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_31_oint, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_31_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_31_olong, M_ARITH, ND_DIV, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_31_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_31_nint, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_31_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_31_oint, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_31_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_31_olong, M_ARITH, ND_MOD, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_31_nint_void, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_31_nint, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_31_oint_void, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_31_oint, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_31_olong_void, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_31_olong, M_ARITH, ND_SAR, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_31_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_31_nint, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_31_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_31_oint, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_31_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_31_olong, M_ARITH, ND_BITOR, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_31_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_31_nint, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_31_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_31_oint, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_31_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_31_olong, M_ARITH, ND_MUL, L_MEM, 1, 31, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_31_void, M_POST, 0, L_MEM, 1, 31, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_31, M_POST, 0, L_MEM, 1, 31, 0, 8, 1, 0, 0, false, true)
AS(bfr_uint_32_mem, M_READ, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_32_mem_void, M_ASSIGN, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_32_mem, M_ASSIGN, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_32_mem_plain, M_READ, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_32_mem_plain_void, M_ASSIGN, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_32_mem_plain, M_ASSIGN, 0, L_MEM, 1, 32, 0, 8, 0, 1, 0, false, false)
AS(bfr_uint_32_mvar, M_READ, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, false, true)
AS(bfw_uint_32_mvar_void, M_ASSIGN, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, true, true)
AS(bfw_uint_32_mvar, M_ASSIGN, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, false, true)
AS(bfr_uint_32_mvar_plain, M_READ, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, false, false)
AS(bfw_uint_32_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, true, false)
AS(bfw_uint_32_mvar_plain, M_ASSIGN, 0, L_MVAR, 1, 32, 0, 8, 0, 1, 0, false, false)
AS(bfa_add_uint_32_nint_void, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_uint_32_nint, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_uint_32_oint_void, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_uint_32_oint, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_uint_32_olong_void, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_uint_32_olong, M_ARITH, ND_ADD, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_uint_32_nint_void, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_uint_32_nint, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_uint_32_oint_void, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_uint_32_oint, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_uint_32_olong_void, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_uint_32_olong, M_ARITH, ND_SUB, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_uint_32_nint_void, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_uint_32_nint, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_uint_32_oint_void, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_uint_32_oint, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_uint_32_olong_void, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_uint_32_olong, M_ARITH, ND_DIV, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_uint_32_nint_void, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_uint_32_nint, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_uint_32_oint_void, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_uint_32_oint, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_uint_32_olong_void, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_uint_32_olong, M_ARITH, ND_MOD, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_uint_32_nint_void, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_uint_32_nint, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_uint_32_oint_void, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_uint_32_oint, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_uint_32_olong_void, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_uint_32_olong, M_ARITH, ND_SHR, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_uint_32_nint_void, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_uint_32_nint, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_uint_32_oint_void, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_uint_32_oint, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_uint_32_olong_void, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_uint_32_olong, M_ARITH, ND_BITOR, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_uint_32_nint_void, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_uint_32_nint, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_uint_32_oint_void, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_uint_32_oint, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_uint_32_olong_void, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_uint_32_olong, M_ARITH, ND_MUL, L_MEM, 1, 32, 0, 8, 0, 2, 0, false, true)
AS(bfp_uint_32_void, M_POST, 0, L_MEM, 1, 32, 0, 8, 1, 0, 0, true, true)
AS(bfp_uint_32, M_POST, 0, L_MEM, 1, 32, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_1_mem, M_READ, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_1_mem_void, M_ASSIGN, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_1_mem, M_ASSIGN, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_1_mem_plain, M_READ, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_1_mem_plain, M_ASSIGN, 0, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_1_mvar, M_READ, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_1_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_1_mvar, M_ASSIGN, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_1_mvar_plain, M_READ, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 1, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_1_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_1_nint, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_1_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_1_oint, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_1_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_1_olong, M_ARITH, ND_ADD, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_1_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_1_nint, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_1_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_1_oint, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_1_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_1_olong, M_ARITH, ND_SUB, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_1_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_1_nint, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_1_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_1_oint, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_1_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_1_olong, M_ARITH, ND_DIV, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_1_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_1_nint, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_1_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_1_oint, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_1_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_1_olong, M_ARITH, ND_MOD, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_1_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_1_nint, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_1_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_1_oint, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_1_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_1_olong, M_ARITH, ND_SAR, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_1_nint, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_1_oint, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_1_olong, M_ARITH, ND_BITOR, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_1_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_1_nint, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_1_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_1_oint, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_1_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_1_olong, M_ARITH, ND_MUL, L_MEM, 0, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_1_void, M_POST, 0, L_MEM, 0, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_1, M_POST, 0, L_MEM, 0, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_2_mem, M_READ, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_2_mem_void, M_ASSIGN, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_2_mem, M_ASSIGN, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_2_mem_plain, M_READ, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_2_mem_plain, M_ASSIGN, 0, L_MEM, 0, 2, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_2_mvar, M_READ, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_2_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_2_mvar, M_ASSIGN, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_2_mvar_plain, M_READ, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 2, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_3_mem, M_READ, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_3_mem_void, M_ASSIGN, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_3_mem, M_ASSIGN, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_3_mem_plain, M_READ, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_3_mem_plain, M_ASSIGN, 0, L_MEM, 0, 3, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_3_mvar, M_READ, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_3_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_3_mvar, M_ASSIGN, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_3_mvar_plain, M_READ, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 3, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_4_mem, M_READ, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_4_mem_void, M_ASSIGN, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_4_mem, M_ASSIGN, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_4_mem_plain, M_READ, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_4_mem_plain, M_ASSIGN, 0, L_MEM, 0, 4, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_4_mvar, M_READ, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_4_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_4_mvar, M_ASSIGN, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_4_mvar_plain, M_READ, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 4, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_5_mem, M_READ, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_5_mem_void, M_ASSIGN, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_5_mem, M_ASSIGN, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_5_mem_plain, M_READ, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_5_mem_plain, M_ASSIGN, 0, L_MEM, 0, 5, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_5_mvar, M_READ, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_5_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_5_mvar, M_ASSIGN, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_5_mvar_plain, M_READ, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 5, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_6_mem, M_READ, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_6_mem_void, M_ASSIGN, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_6_mem, M_ASSIGN, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_6_mem_plain, M_READ, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_6_mem_plain, M_ASSIGN, 0, L_MEM, 0, 6, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_6_mvar, M_READ, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_6_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_6_mvar, M_ASSIGN, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_6_mvar_plain, M_READ, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 6, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_7_mem, M_READ, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_7_mem_void, M_ASSIGN, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_7_mem, M_ASSIGN, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_7_mem_plain, M_READ, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_7_mem_plain, M_ASSIGN, 0, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_7_mvar, M_READ, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_7_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_7_mvar, M_ASSIGN, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_7_mvar_plain, M_READ, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 7, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_7_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_7_nint, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_7_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_7_oint, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_7_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_7_olong, M_ARITH, ND_ADD, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_7_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_7_nint, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_7_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_7_oint, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_7_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_7_olong, M_ARITH, ND_SUB, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_7_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_7_nint, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_7_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_7_oint, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_7_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_7_olong, M_ARITH, ND_DIV, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_7_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_7_nint, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_7_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_7_oint, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_7_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_7_olong, M_ARITH, ND_MOD, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_7_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_7_nint, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_7_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_7_oint, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_7_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_7_olong, M_ARITH, ND_SAR, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_7_nint, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_7_oint, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_7_olong, M_ARITH, ND_BITOR, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_7_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_7_nint, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_7_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_7_oint, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_7_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_7_olong, M_ARITH, ND_MUL, L_MEM, 0, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_7_void, M_POST, 0, L_MEM, 0, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_7, M_POST, 0, L_MEM, 0, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_8_mem, M_READ, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_8_mem_void, M_ASSIGN, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_8_mem, M_ASSIGN, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_8_mem_plain, M_READ, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_8_mem_plain, M_ASSIGN, 0, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_8_mvar, M_READ, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_8_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_8_mvar, M_ASSIGN, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_8_mvar_plain, M_READ, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 8, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_8_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_8_nint, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_8_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_8_oint, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_8_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_8_olong, M_ARITH, ND_ADD, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_8_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_8_nint, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_8_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_8_oint, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_8_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_8_olong, M_ARITH, ND_SUB, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_8_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_8_nint, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_8_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_8_oint, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_8_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_8_olong, M_ARITH, ND_DIV, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_8_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_8_nint, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_8_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_8_oint, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_8_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_8_olong, M_ARITH, ND_MOD, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_8_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_8_nint, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_8_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_8_oint, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_8_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_8_olong, M_ARITH, ND_SAR, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_8_nint, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_8_oint, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_8_olong, M_ARITH, ND_BITOR, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_8_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_8_nint, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_8_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_8_oint, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_8_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_8_olong, M_ARITH, ND_MUL, L_MEM, 0, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_8_void, M_POST, 0, L_MEM, 0, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_8, M_POST, 0, L_MEM, 0, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_9_mem, M_READ, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_9_mem_void, M_ASSIGN, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_9_mem, M_ASSIGN, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_9_mem_plain, M_READ, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_9_mem_plain, M_ASSIGN, 0, L_MEM, 0, 9, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_9_mvar, M_READ, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_9_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_9_mvar, M_ASSIGN, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_9_mvar_plain, M_READ, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 9, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_10_mem, M_READ, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_10_mem_void, M_ASSIGN, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_10_mem, M_ASSIGN, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_10_mem_plain, M_READ, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_10_mem_plain, M_ASSIGN, 0, L_MEM, 0, 10, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_10_mvar, M_READ, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_10_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_10_mvar, M_ASSIGN, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_10_mvar_plain, M_READ, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 10, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_11_mem, M_READ, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_11_mem_void, M_ASSIGN, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_11_mem, M_ASSIGN, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_11_mem_plain, M_READ, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_11_mem_plain, M_ASSIGN, 0, L_MEM, 0, 11, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_11_mvar, M_READ, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_11_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_11_mvar, M_ASSIGN, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_11_mvar_plain, M_READ, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 11, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_12_mem, M_READ, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_12_mem_void, M_ASSIGN, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_12_mem, M_ASSIGN, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_12_mem_plain, M_READ, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_12_mem_plain, M_ASSIGN, 0, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_12_mvar, M_READ, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_12_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_12_mvar, M_ASSIGN, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_12_mvar_plain, M_READ, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 12, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_12_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_12_nint, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_12_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_12_oint, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_12_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_12_olong, M_ARITH, ND_ADD, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_12_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_12_nint, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_12_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_12_oint, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_12_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_12_olong, M_ARITH, ND_SUB, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_12_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_12_nint, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_12_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_12_oint, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_12_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_12_olong, M_ARITH, ND_DIV, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_12_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_12_nint, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_12_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_12_oint, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_12_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_12_olong, M_ARITH, ND_MOD, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_12_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_12_nint, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_12_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_12_oint, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_12_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_12_olong, M_ARITH, ND_SAR, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_12_nint, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_12_oint, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_12_olong, M_ARITH, ND_BITOR, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_12_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_12_nint, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_12_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_12_oint, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_12_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_12_olong, M_ARITH, ND_MUL, L_MEM, 0, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_12_void, M_POST, 0, L_MEM, 0, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_12, M_POST, 0, L_MEM, 0, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_13_mem, M_READ, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_13_mem_void, M_ASSIGN, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_13_mem, M_ASSIGN, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_13_mem_plain, M_READ, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_13_mem_plain, M_ASSIGN, 0, L_MEM, 0, 13, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_13_mvar, M_READ, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_13_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_13_mvar, M_ASSIGN, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_13_mvar_plain, M_READ, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 13, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_14_mem, M_READ, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_14_mem_void, M_ASSIGN, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_14_mem, M_ASSIGN, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_14_mem_plain, M_READ, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_14_mem_plain, M_ASSIGN, 0, L_MEM, 0, 14, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_14_mvar, M_READ, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_14_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_14_mvar, M_ASSIGN, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_14_mvar_plain, M_READ, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 14, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_15_mem, M_READ, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_15_mem_void, M_ASSIGN, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_15_mem, M_ASSIGN, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_15_mem_plain, M_READ, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_15_mem_plain, M_ASSIGN, 0, L_MEM, 0, 15, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_15_mvar, M_READ, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_15_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_15_mvar, M_ASSIGN, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_15_mvar_plain, M_READ, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 15, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_16_mem, M_READ, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_16_mem_void, M_ASSIGN, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_16_mem, M_ASSIGN, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_16_mem_plain, M_READ, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_16_mem_plain, M_ASSIGN, 0, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_16_mvar, M_READ, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_16_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_16_mvar, M_ASSIGN, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_16_mvar_plain, M_READ, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 16, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_16_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_16_nint, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_16_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_16_oint, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_16_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_16_olong, M_ARITH, ND_ADD, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_16_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_16_nint, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_16_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_16_oint, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_16_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_16_olong, M_ARITH, ND_SUB, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_16_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_16_nint, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_16_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_16_oint, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_16_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_16_olong, M_ARITH, ND_DIV, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_16_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_16_nint, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_16_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_16_oint, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_16_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_16_olong, M_ARITH, ND_MOD, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_16_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_16_nint, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_16_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_16_oint, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_16_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_16_olong, M_ARITH, ND_SAR, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_16_nint, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_16_oint, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_16_olong, M_ARITH, ND_BITOR, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_16_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_16_nint, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_16_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_16_oint, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_16_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_16_olong, M_ARITH, ND_MUL, L_MEM, 0, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_16_void, M_POST, 0, L_MEM, 0, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_16, M_POST, 0, L_MEM, 0, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_17_mem, M_READ, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_17_mem_void, M_ASSIGN, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_17_mem, M_ASSIGN, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_17_mem_plain, M_READ, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_17_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_17_mem_plain, M_ASSIGN, 0, L_MEM, 0, 17, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_17_mvar, M_READ, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_17_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_17_mvar, M_ASSIGN, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_17_mvar_plain, M_READ, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_17_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_17_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 17, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_18_mem, M_READ, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_18_mem_void, M_ASSIGN, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_18_mem, M_ASSIGN, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_18_mem_plain, M_READ, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_18_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_18_mem_plain, M_ASSIGN, 0, L_MEM, 0, 18, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_18_mvar, M_READ, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_18_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_18_mvar, M_ASSIGN, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_18_mvar_plain, M_READ, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_18_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_18_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 18, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_19_mem, M_READ, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_19_mem_void, M_ASSIGN, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_19_mem, M_ASSIGN, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_19_mem_plain, M_READ, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_19_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_19_mem_plain, M_ASSIGN, 0, L_MEM, 0, 19, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_19_mvar, M_READ, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_19_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_19_mvar, M_ASSIGN, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_19_mvar_plain, M_READ, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_19_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_19_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 19, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_20_mem, M_READ, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_20_mem_void, M_ASSIGN, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_20_mem, M_ASSIGN, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_20_mem_plain, M_READ, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_20_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_20_mem_plain, M_ASSIGN, 0, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_20_mvar, M_READ, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_20_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_20_mvar, M_ASSIGN, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_20_mvar_plain, M_READ, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_20_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_20_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 20, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_20_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_20_nint, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_20_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_20_oint, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_20_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_20_olong, M_ARITH, ND_ADD, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_20_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_20_nint, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_20_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_20_oint, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_20_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_20_olong, M_ARITH, ND_SUB, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_20_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_20_nint, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_20_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_20_oint, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_20_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_20_olong, M_ARITH, ND_DIV, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_20_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_20_nint, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_20_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_20_oint, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_20_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_20_olong, M_ARITH, ND_MOD, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_20_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_20_nint, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_20_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_20_oint, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_20_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_20_olong, M_ARITH, ND_SAR, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_20_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_20_nint, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_20_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_20_oint, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_20_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_20_olong, M_ARITH, ND_BITOR, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_20_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_20_nint, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_20_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_20_oint, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_20_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_20_olong, M_ARITH, ND_MUL, L_MEM, 0, 20, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_20_void, M_POST, 0, L_MEM, 0, 20, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_20, M_POST, 0, L_MEM, 0, 20, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_21_mem, M_READ, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_21_mem_void, M_ASSIGN, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_21_mem, M_ASSIGN, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_21_mem_plain, M_READ, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_21_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_21_mem_plain, M_ASSIGN, 0, L_MEM, 0, 21, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_21_mvar, M_READ, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_21_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_21_mvar, M_ASSIGN, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_21_mvar_plain, M_READ, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_21_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_21_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 21, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_22_mem, M_READ, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_22_mem_void, M_ASSIGN, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_22_mem, M_ASSIGN, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_22_mem_plain, M_READ, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_22_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_22_mem_plain, M_ASSIGN, 0, L_MEM, 0, 22, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_22_mvar, M_READ, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_22_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_22_mvar, M_ASSIGN, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_22_mvar_plain, M_READ, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_22_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_22_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 22, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_23_mem, M_READ, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_23_mem_void, M_ASSIGN, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_23_mem, M_ASSIGN, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_23_mem_plain, M_READ, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_23_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_23_mem_plain, M_ASSIGN, 0, L_MEM, 0, 23, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_23_mvar, M_READ, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_23_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_23_mvar, M_ASSIGN, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_23_mvar_plain, M_READ, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_23_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_23_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 23, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_24_mem, M_READ, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_24_mem_void, M_ASSIGN, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_24_mem, M_ASSIGN, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_24_mem_plain, M_READ, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_24_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_24_mem_plain, M_ASSIGN, 0, L_MEM, 0, 24, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_24_mvar, M_READ, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_24_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_24_mvar, M_ASSIGN, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_24_mvar_plain, M_READ, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_24_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_24_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 24, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_25_mem, M_READ, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_25_mem_void, M_ASSIGN, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_25_mem, M_ASSIGN, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_25_mem_plain, M_READ, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_25_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_25_mem_plain, M_ASSIGN, 0, L_MEM, 0, 25, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_25_mvar, M_READ, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_25_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_25_mvar, M_ASSIGN, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_25_mvar_plain, M_READ, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_25_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_25_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 25, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_26_mem, M_READ, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_26_mem_void, M_ASSIGN, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_26_mem, M_ASSIGN, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_26_mem_plain, M_READ, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_26_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_26_mem_plain, M_ASSIGN, 0, L_MEM, 0, 26, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_26_mvar, M_READ, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_26_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_26_mvar, M_ASSIGN, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_26_mvar_plain, M_READ, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_26_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_26_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 26, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_27_mem, M_READ, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_27_mem_void, M_ASSIGN, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_27_mem, M_ASSIGN, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_27_mem_plain, M_READ, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_27_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_27_mem_plain, M_ASSIGN, 0, L_MEM, 0, 27, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_27_mvar, M_READ, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_27_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_27_mvar, M_ASSIGN, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_27_mvar_plain, M_READ, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_27_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_27_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 27, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_28_mem, M_READ, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_28_mem_void, M_ASSIGN, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_28_mem, M_ASSIGN, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_28_mem_plain, M_READ, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_28_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_28_mem_plain, M_ASSIGN, 0, L_MEM, 0, 28, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_28_mvar, M_READ, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_28_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_28_mvar, M_ASSIGN, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_28_mvar_plain, M_READ, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_28_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_28_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 28, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_29_mem, M_READ, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_29_mem_void, M_ASSIGN, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_29_mem, M_ASSIGN, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_29_mem_plain, M_READ, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_29_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_29_mem_plain, M_ASSIGN, 0, L_MEM, 0, 29, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_29_mvar, M_READ, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_29_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_29_mvar, M_ASSIGN, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_29_mvar_plain, M_READ, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_29_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_29_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 29, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_30_mem, M_READ, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_30_mem_void, M_ASSIGN, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_30_mem, M_ASSIGN, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_30_mem_plain, M_READ, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_30_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_30_mem_plain, M_ASSIGN, 0, L_MEM, 0, 30, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_30_mvar, M_READ, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_30_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_30_mvar, M_ASSIGN, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_30_mvar_plain, M_READ, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_30_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_30_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 30, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_31_mem, M_READ, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_31_mem_void, M_ASSIGN, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_31_mem, M_ASSIGN, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_31_mem_plain, M_READ, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_31_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_31_mem_plain, M_ASSIGN, 0, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_31_mvar, M_READ, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_31_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_31_mvar, M_ASSIGN, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_31_mvar_plain, M_READ, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_31_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_31_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 31, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_31_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_31_nint, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_31_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_31_oint, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_31_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_31_olong, M_ARITH, ND_ADD, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_31_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_31_nint, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_31_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_31_oint, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_31_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_31_olong, M_ARITH, ND_SUB, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_31_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_31_nint, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_31_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_31_oint, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_31_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_31_olong, M_ARITH, ND_DIV, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_31_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_31_nint, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_31_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_31_oint, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_31_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_31_olong, M_ARITH, ND_MOD, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_31_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_31_nint, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_31_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_31_oint, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_31_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_31_olong, M_ARITH, ND_SAR, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_31_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_31_nint, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_31_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_31_oint, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_31_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_31_olong, M_ARITH, ND_BITOR, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_31_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_31_nint, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_31_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_31_oint, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_31_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_31_olong, M_ARITH, ND_MUL, L_MEM, 0, 31, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_31_void, M_POST, 0, L_MEM, 0, 31, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_31, M_POST, 0, L_MEM, 0, 31, 0, 8, 1, 0, 0, false, true)
AS(bfr_int_32_mem, M_READ, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_32_mem_void, M_ASSIGN, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_32_mem, M_ASSIGN, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_32_mem_plain, M_READ, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_32_mem_plain_void, M_ASSIGN, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_32_mem_plain, M_ASSIGN, 0, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, false)
AS(bfr_int_32_mvar, M_READ, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfw_int_32_mvar_void, M_ASSIGN, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfw_int_32_mvar, M_ASSIGN, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfr_int_32_mvar_plain, M_READ, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, false, false)
AS(bfw_int_32_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, true, false)
AS(bfw_int_32_mvar_plain, M_ASSIGN, 0, L_MVAR, 0, 32, 0, 8, 0, 0, 0, false, false)
AS(bfa_add_int_32_nint_void, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_int_32_nint, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_int_32_oint_void, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_int_32_oint, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_int_32_olong_void, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_int_32_olong, M_ARITH, ND_ADD, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_int_32_nint_void, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_int_32_nint, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_int_32_oint_void, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_int_32_oint, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_int_32_olong_void, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_int_32_olong, M_ARITH, ND_SUB, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_int_32_nint_void, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_int_32_nint, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_int_32_oint_void, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_int_32_oint, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_int_32_olong_void, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_int_32_olong, M_ARITH, ND_DIV, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_int_32_nint_void, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_int_32_nint, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_int_32_oint_void, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_int_32_oint, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_int_32_olong_void, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_int_32_olong, M_ARITH, ND_MOD, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_int_32_nint_void, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_int_32_nint, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_int_32_oint_void, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_int_32_oint, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_int_32_olong_void, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_int_32_olong, M_ARITH, ND_SAR, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_int_32_nint_void, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_int_32_nint, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_int_32_oint_void, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_int_32_oint, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_int_32_olong_void, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_int_32_olong, M_ARITH, ND_BITOR, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_int_32_nint_void, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_int_32_nint, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_int_32_oint_void, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_int_32_oint, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_int_32_olong_void, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_int_32_olong, M_ARITH, ND_MUL, L_MEM, 0, 32, 0, 8, 0, 2, 0, false, true)
AS(bfp_int_32_void, M_POST, 0, L_MEM, 0, 32, 0, 8, 1, 0, 0, true, true)
AS(bfp_int_32, M_POST, 0, L_MEM, 0, 32, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_1_mem, M_READ, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_1_mem_void, M_ASSIGN, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_1_mem, M_ASSIGN, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_1_mem_plain, M_READ, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_1_mem_plain, M_ASSIGN, 0, L_MEM, 3, 1, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_1_mvar, M_READ, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_1_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_1_mvar, M_ASSIGN, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_1_mvar_plain, M_READ, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 1, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_1_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_1_nint, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_1_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_1_oint, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_1_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_1_olong, M_ARITH, ND_ADD, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_1_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_1_nint, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_1_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_1_oint, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_1_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_1_olong, M_ARITH, ND_SUB, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_1_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_1_nint, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_1_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_1_oint, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_1_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_1_olong, M_ARITH, ND_DIV, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_1_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_1_nint, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_1_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_1_oint, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_1_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_1_olong, M_ARITH, ND_MOD, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_1_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_1_nint, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_1_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_1_oint, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_1_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_1_olong, M_ARITH, ND_SAR, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_1_nint, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_1_oint, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_1_olong, M_ARITH, ND_BITOR, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_1_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_1_nint, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_1_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_1_oint, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_1_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_1_olong, M_ARITH, ND_MUL, L_MEM, 3, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_1_void, M_POST, 0, L_MEM, 3, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_1, M_POST, 0, L_MEM, 3, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_2_mem, M_READ, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_2_mem_void, M_ASSIGN, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_2_mem, M_ASSIGN, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_2_mem_plain, M_READ, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_2_mem_plain, M_ASSIGN, 0, L_MEM, 3, 2, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_2_mvar, M_READ, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_2_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_2_mvar, M_ASSIGN, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_2_mvar_plain, M_READ, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 2, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_3_mem, M_READ, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_3_mem_void, M_ASSIGN, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_3_mem, M_ASSIGN, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_3_mem_plain, M_READ, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_3_mem_plain, M_ASSIGN, 0, L_MEM, 3, 3, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_3_mvar, M_READ, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_3_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_3_mvar, M_ASSIGN, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_3_mvar_plain, M_READ, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 3, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_4_mem, M_READ, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_4_mem_void, M_ASSIGN, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_4_mem, M_ASSIGN, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_4_mem_plain, M_READ, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_4_mem_plain, M_ASSIGN, 0, L_MEM, 3, 4, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_4_mvar, M_READ, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_4_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_4_mvar, M_ASSIGN, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_4_mvar_plain, M_READ, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 4, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_5_mem, M_READ, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_5_mem_void, M_ASSIGN, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_5_mem, M_ASSIGN, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_5_mem_plain, M_READ, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_5_mem_plain, M_ASSIGN, 0, L_MEM, 3, 5, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_5_mvar, M_READ, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_5_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_5_mvar, M_ASSIGN, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_5_mvar_plain, M_READ, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 5, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_6_mem, M_READ, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_6_mem_void, M_ASSIGN, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_6_mem, M_ASSIGN, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_6_mem_plain, M_READ, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_6_mem_plain, M_ASSIGN, 0, L_MEM, 3, 6, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_6_mvar, M_READ, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_6_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_6_mvar, M_ASSIGN, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_6_mvar_plain, M_READ, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 6, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_7_mem, M_READ, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_7_mem_void, M_ASSIGN, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_7_mem, M_ASSIGN, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_7_mem_plain, M_READ, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_7_mem_plain, M_ASSIGN, 0, L_MEM, 3, 7, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_7_mvar, M_READ, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_7_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_7_mvar, M_ASSIGN, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_7_mvar_plain, M_READ, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 7, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_7_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_7_nint, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_7_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_7_oint, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_7_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_7_olong, M_ARITH, ND_ADD, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_7_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_7_nint, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_7_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_7_oint, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_7_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_7_olong, M_ARITH, ND_SUB, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_7_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_7_nint, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_7_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_7_oint, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_7_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_7_olong, M_ARITH, ND_DIV, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_7_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_7_nint, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_7_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_7_oint, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_7_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_7_olong, M_ARITH, ND_MOD, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_7_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_7_nint, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_7_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_7_oint, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_7_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_7_olong, M_ARITH, ND_SAR, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_7_nint, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_7_oint, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_7_olong, M_ARITH, ND_BITOR, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_7_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_7_nint, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_7_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_7_oint, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_7_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_7_olong, M_ARITH, ND_MUL, L_MEM, 3, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_7_void, M_POST, 0, L_MEM, 3, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_7, M_POST, 0, L_MEM, 3, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_8_mem, M_READ, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_8_mem_void, M_ASSIGN, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_8_mem, M_ASSIGN, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_8_mem_plain, M_READ, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_8_mem_plain, M_ASSIGN, 0, L_MEM, 3, 8, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_8_mvar, M_READ, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_8_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_8_mvar, M_ASSIGN, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_8_mvar_plain, M_READ, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 8, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_8_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_8_nint, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_8_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_8_oint, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_8_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_8_olong, M_ARITH, ND_ADD, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_8_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_8_nint, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_8_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_8_oint, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_8_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_8_olong, M_ARITH, ND_SUB, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_8_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_8_nint, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_8_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_8_oint, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_8_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_8_olong, M_ARITH, ND_DIV, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_8_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_8_nint, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_8_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_8_oint, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_8_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_8_olong, M_ARITH, ND_MOD, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_8_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_8_nint, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_8_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_8_oint, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_8_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_8_olong, M_ARITH, ND_SAR, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_8_nint, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_8_oint, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_8_olong, M_ARITH, ND_BITOR, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_8_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_8_nint, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_8_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_8_oint, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_8_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_8_olong, M_ARITH, ND_MUL, L_MEM, 3, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_8_void, M_POST, 0, L_MEM, 3, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_8, M_POST, 0, L_MEM, 3, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_9_mem, M_READ, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_9_mem_void, M_ASSIGN, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_9_mem, M_ASSIGN, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_9_mem_plain, M_READ, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_9_mem_plain, M_ASSIGN, 0, L_MEM, 3, 9, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_9_mvar, M_READ, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_9_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_9_mvar, M_ASSIGN, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_9_mvar_plain, M_READ, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 9, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_10_mem, M_READ, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_10_mem_void, M_ASSIGN, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_10_mem, M_ASSIGN, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_10_mem_plain, M_READ, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_10_mem_plain, M_ASSIGN, 0, L_MEM, 3, 10, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_10_mvar, M_READ, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_10_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_10_mvar, M_ASSIGN, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_10_mvar_plain, M_READ, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 10, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_11_mem, M_READ, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_11_mem_void, M_ASSIGN, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_11_mem, M_ASSIGN, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_11_mem_plain, M_READ, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_11_mem_plain, M_ASSIGN, 0, L_MEM, 3, 11, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_11_mvar, M_READ, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_11_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_11_mvar, M_ASSIGN, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_11_mvar_plain, M_READ, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 11, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_12_mem, M_READ, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_12_mem_void, M_ASSIGN, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_12_mem, M_ASSIGN, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_12_mem_plain, M_READ, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_12_mem_plain, M_ASSIGN, 0, L_MEM, 3, 12, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_12_mvar, M_READ, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_12_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_12_mvar, M_ASSIGN, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_12_mvar_plain, M_READ, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 12, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_12_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_12_nint, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_12_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_12_oint, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_12_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_12_olong, M_ARITH, ND_ADD, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_12_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_12_nint, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_12_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_12_oint, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_12_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_12_olong, M_ARITH, ND_SUB, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_12_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_12_nint, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_12_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_12_oint, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_12_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_12_olong, M_ARITH, ND_DIV, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_12_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_12_nint, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_12_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_12_oint, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_12_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_12_olong, M_ARITH, ND_MOD, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_12_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_12_nint, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_12_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_12_oint, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_12_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_12_olong, M_ARITH, ND_SAR, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_12_nint, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_12_oint, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_12_olong, M_ARITH, ND_BITOR, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_12_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_12_nint, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_12_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_12_oint, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_12_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_12_olong, M_ARITH, ND_MUL, L_MEM, 3, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_12_void, M_POST, 0, L_MEM, 3, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_12, M_POST, 0, L_MEM, 3, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_13_mem, M_READ, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_13_mem_void, M_ASSIGN, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_13_mem, M_ASSIGN, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_13_mem_plain, M_READ, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_13_mem_plain, M_ASSIGN, 0, L_MEM, 3, 13, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_13_mvar, M_READ, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_13_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_13_mvar, M_ASSIGN, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_13_mvar_plain, M_READ, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 13, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_14_mem, M_READ, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_14_mem_void, M_ASSIGN, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_14_mem, M_ASSIGN, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_14_mem_plain, M_READ, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_14_mem_plain, M_ASSIGN, 0, L_MEM, 3, 14, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_14_mvar, M_READ, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_14_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_14_mvar, M_ASSIGN, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_14_mvar_plain, M_READ, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 14, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_15_mem, M_READ, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_15_mem_void, M_ASSIGN, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_15_mem, M_ASSIGN, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_15_mem_plain, M_READ, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_15_mem_plain, M_ASSIGN, 0, L_MEM, 3, 15, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_15_mvar, M_READ, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_15_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_15_mvar, M_ASSIGN, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_15_mvar_plain, M_READ, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 15, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_16_mem, M_READ, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_16_mem_void, M_ASSIGN, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_16_mem, M_ASSIGN, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_16_mem_plain, M_READ, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_16_mem_plain, M_ASSIGN, 0, L_MEM, 3, 16, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_16_mvar, M_READ, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_16_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_16_mvar, M_ASSIGN, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_16_mvar_plain, M_READ, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 16, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_16_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_16_nint, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_16_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_16_oint, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_16_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_16_olong, M_ARITH, ND_ADD, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_16_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_16_nint, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_16_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_16_oint, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_16_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_16_olong, M_ARITH, ND_SUB, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_16_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_16_nint, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_16_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_16_oint, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_16_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_16_olong, M_ARITH, ND_DIV, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_16_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_16_nint, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_16_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_16_oint, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_16_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_16_olong, M_ARITH, ND_MOD, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_16_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_16_nint, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_16_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_16_oint, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_16_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_16_olong, M_ARITH, ND_SAR, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_16_nint, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_16_oint, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_16_olong, M_ARITH, ND_BITOR, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_16_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_16_nint, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_16_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_16_oint, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_16_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_16_olong, M_ARITH, ND_MUL, L_MEM, 3, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_16_void, M_POST, 0, L_MEM, 3, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_16, M_POST, 0, L_MEM, 3, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_17_mem, M_READ, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_17_mem_void, M_ASSIGN, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_17_mem, M_ASSIGN, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_17_mem_plain, M_READ, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_17_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_17_mem_plain, M_ASSIGN, 0, L_MEM, 3, 17, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_17_mvar, M_READ, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_17_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_17_mvar, M_ASSIGN, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_17_mvar_plain, M_READ, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_17_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_17_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 17, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_18_mem, M_READ, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_18_mem_void, M_ASSIGN, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_18_mem, M_ASSIGN, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_18_mem_plain, M_READ, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_18_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_18_mem_plain, M_ASSIGN, 0, L_MEM, 3, 18, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_18_mvar, M_READ, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_18_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_18_mvar, M_ASSIGN, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_18_mvar_plain, M_READ, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_18_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_18_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 18, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_19_mem, M_READ, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_19_mem_void, M_ASSIGN, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_19_mem, M_ASSIGN, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_19_mem_plain, M_READ, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_19_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_19_mem_plain, M_ASSIGN, 0, L_MEM, 3, 19, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_19_mvar, M_READ, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_19_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_19_mvar, M_ASSIGN, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_19_mvar_plain, M_READ, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_19_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_19_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 19, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_20_mem, M_READ, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_20_mem_void, M_ASSIGN, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_20_mem, M_ASSIGN, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_20_mem_plain, M_READ, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_20_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_20_mem_plain, M_ASSIGN, 0, L_MEM, 3, 20, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_20_mvar, M_READ, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_20_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_20_mvar, M_ASSIGN, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_20_mvar_plain, M_READ, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_20_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_20_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 20, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_20_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_20_nint, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_20_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_20_oint, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_20_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_20_olong, M_ARITH, ND_ADD, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_20_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_20_nint, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_20_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_20_oint, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_20_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_20_olong, M_ARITH, ND_SUB, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_20_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_20_nint, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_20_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_20_oint, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_20_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_20_olong, M_ARITH, ND_DIV, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_20_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_20_nint, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_20_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_20_oint, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_20_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_20_olong, M_ARITH, ND_MOD, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_20_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_20_nint, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_20_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_20_oint, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_20_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_20_olong, M_ARITH, ND_SAR, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_20_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_20_nint, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_20_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_20_oint, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_20_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_20_olong, M_ARITH, ND_BITOR, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_20_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_20_nint, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_20_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_20_oint, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_20_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_20_olong, M_ARITH, ND_MUL, L_MEM, 3, 20, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_20_void, M_POST, 0, L_MEM, 3, 20, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_20, M_POST, 0, L_MEM, 3, 20, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_21_mem, M_READ, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_21_mem_void, M_ASSIGN, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_21_mem, M_ASSIGN, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_21_mem_plain, M_READ, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_21_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_21_mem_plain, M_ASSIGN, 0, L_MEM, 3, 21, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_21_mvar, M_READ, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_21_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_21_mvar, M_ASSIGN, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_21_mvar_plain, M_READ, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_21_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_21_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 21, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_22_mem, M_READ, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_22_mem_void, M_ASSIGN, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_22_mem, M_ASSIGN, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_22_mem_plain, M_READ, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_22_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_22_mem_plain, M_ASSIGN, 0, L_MEM, 3, 22, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_22_mvar, M_READ, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_22_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_22_mvar, M_ASSIGN, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_22_mvar_plain, M_READ, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_22_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_22_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 22, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_23_mem, M_READ, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_23_mem_void, M_ASSIGN, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_23_mem, M_ASSIGN, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_23_mem_plain, M_READ, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_23_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_23_mem_plain, M_ASSIGN, 0, L_MEM, 3, 23, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_23_mvar, M_READ, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_23_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_23_mvar, M_ASSIGN, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_23_mvar_plain, M_READ, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_23_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_23_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 23, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_24_mem, M_READ, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_24_mem_void, M_ASSIGN, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_24_mem, M_ASSIGN, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_24_mem_plain, M_READ, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_24_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_24_mem_plain, M_ASSIGN, 0, L_MEM, 3, 24, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_24_mvar, M_READ, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_24_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_24_mvar, M_ASSIGN, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_24_mvar_plain, M_READ, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_24_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_24_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 24, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_25_mem, M_READ, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_25_mem_void, M_ASSIGN, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_25_mem, M_ASSIGN, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_25_mem_plain, M_READ, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_25_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_25_mem_plain, M_ASSIGN, 0, L_MEM, 3, 25, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_25_mvar, M_READ, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_25_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_25_mvar, M_ASSIGN, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_25_mvar_plain, M_READ, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_25_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_25_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 25, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_26_mem, M_READ, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_26_mem_void, M_ASSIGN, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_26_mem, M_ASSIGN, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_26_mem_plain, M_READ, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_26_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_26_mem_plain, M_ASSIGN, 0, L_MEM, 3, 26, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_26_mvar, M_READ, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_26_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_26_mvar, M_ASSIGN, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_26_mvar_plain, M_READ, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_26_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_26_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 26, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_27_mem, M_READ, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_27_mem_void, M_ASSIGN, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_27_mem, M_ASSIGN, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_27_mem_plain, M_READ, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_27_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_27_mem_plain, M_ASSIGN, 0, L_MEM, 3, 27, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_27_mvar, M_READ, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_27_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_27_mvar, M_ASSIGN, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_27_mvar_plain, M_READ, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_27_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_27_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 27, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_28_mem, M_READ, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_28_mem_void, M_ASSIGN, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_28_mem, M_ASSIGN, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_28_mem_plain, M_READ, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_28_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_28_mem_plain, M_ASSIGN, 0, L_MEM, 3, 28, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_28_mvar, M_READ, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_28_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_28_mvar, M_ASSIGN, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_28_mvar_plain, M_READ, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_28_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_28_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 28, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_29_mem, M_READ, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_29_mem_void, M_ASSIGN, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_29_mem, M_ASSIGN, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_29_mem_plain, M_READ, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_29_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_29_mem_plain, M_ASSIGN, 0, L_MEM, 3, 29, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_29_mvar, M_READ, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_29_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_29_mvar, M_ASSIGN, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_29_mvar_plain, M_READ, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_29_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_29_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 29, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_30_mem, M_READ, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_30_mem_void, M_ASSIGN, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_30_mem, M_ASSIGN, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_30_mem_plain, M_READ, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_30_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_30_mem_plain, M_ASSIGN, 0, L_MEM, 3, 30, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_30_mvar, M_READ, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_30_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_30_mvar, M_ASSIGN, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_30_mvar_plain, M_READ, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_30_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_30_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 30, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_31_mem, M_READ, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_31_mem_void, M_ASSIGN, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_31_mem, M_ASSIGN, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_31_mem_plain, M_READ, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_31_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_31_mem_plain, M_ASSIGN, 0, L_MEM, 3, 31, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_31_mvar, M_READ, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_31_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_31_mvar, M_ASSIGN, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_31_mvar_plain, M_READ, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_31_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_31_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 31, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_31_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_31_nint, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_31_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_31_oint, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_31_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_31_olong, M_ARITH, ND_ADD, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_31_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_31_nint, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_31_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_31_oint, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_31_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_31_olong, M_ARITH, ND_SUB, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_31_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_31_nint, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_31_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_31_oint, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_31_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_31_olong, M_ARITH, ND_DIV, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_31_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_31_nint, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_31_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_31_oint, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_31_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_31_olong, M_ARITH, ND_MOD, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_31_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_31_nint, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_31_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_31_oint, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_31_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_31_olong, M_ARITH, ND_SAR, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_31_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_31_nint, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_31_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_31_oint, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_31_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_31_olong, M_ARITH, ND_BITOR, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_31_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_31_nint, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_31_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_31_oint, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_31_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_31_olong, M_ARITH, ND_MUL, L_MEM, 3, 31, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_31_void, M_POST, 0, L_MEM, 3, 31, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_31, M_POST, 0, L_MEM, 3, 31, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_32_mem, M_READ, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_32_mem_void, M_ASSIGN, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_32_mem, M_ASSIGN, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_32_mem_plain, M_READ, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_32_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_32_mem_plain, M_ASSIGN, 0, L_MEM, 3, 32, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_32_mvar, M_READ, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_32_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_32_mvar, M_ASSIGN, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_32_mvar_plain, M_READ, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_32_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_32_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 32, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_32_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_32_nint, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_32_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_32_oint, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_32_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_32_olong, M_ARITH, ND_ADD, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_32_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_32_nint, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_32_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_32_oint, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_32_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_32_olong, M_ARITH, ND_SUB, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_32_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_32_nint, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_32_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_32_oint, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_32_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_32_olong, M_ARITH, ND_DIV, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_32_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_32_nint, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_32_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_32_oint, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_32_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_32_olong, M_ARITH, ND_MOD, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_32_nint_void, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_32_nint, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_32_oint_void, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_32_oint, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_32_olong_void, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_32_olong, M_ARITH, ND_SAR, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_32_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_32_nint, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_32_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_32_oint, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_32_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_32_olong, M_ARITH, ND_BITOR, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_32_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_32_nint, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_32_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_32_oint, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_32_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_32_olong, M_ARITH, ND_MUL, L_MEM, 3, 32, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_32_void, M_POST, 0, L_MEM, 3, 32, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_32, M_POST, 0, L_MEM, 3, 32, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_33_mem, M_READ, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_33_mem_void, M_ASSIGN, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_33_mem, M_ASSIGN, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_33_mem_plain, M_READ, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_33_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_33_mem_plain, M_ASSIGN, 0, L_MEM, 3, 33, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_33_mvar, M_READ, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_33_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_33_mvar, M_ASSIGN, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_33_mvar_plain, M_READ, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_33_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_33_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 33, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_34_mem, M_READ, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_34_mem_void, M_ASSIGN, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_34_mem, M_ASSIGN, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_34_mem_plain, M_READ, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_34_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_34_mem_plain, M_ASSIGN, 0, L_MEM, 3, 34, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_34_mvar, M_READ, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_34_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_34_mvar, M_ASSIGN, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_34_mvar_plain, M_READ, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_34_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_34_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 34, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_35_mem, M_READ, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_35_mem_void, M_ASSIGN, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_35_mem, M_ASSIGN, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_35_mem_plain, M_READ, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_35_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_35_mem_plain, M_ASSIGN, 0, L_MEM, 3, 35, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_35_mvar, M_READ, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_35_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_35_mvar, M_ASSIGN, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_35_mvar_plain, M_READ, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_35_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_35_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 35, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_36_mem, M_READ, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_36_mem_void, M_ASSIGN, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_36_mem, M_ASSIGN, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_36_mem_plain, M_READ, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_36_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_36_mem_plain, M_ASSIGN, 0, L_MEM, 3, 36, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_36_mvar, M_READ, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_36_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_36_mvar, M_ASSIGN, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_36_mvar_plain, M_READ, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_36_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_36_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 36, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_37_mem, M_READ, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_37_mem_void, M_ASSIGN, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_37_mem, M_ASSIGN, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_37_mem_plain, M_READ, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_37_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_37_mem_plain, M_ASSIGN, 0, L_MEM, 3, 37, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_37_mvar, M_READ, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_37_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_37_mvar, M_ASSIGN, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_37_mvar_plain, M_READ, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_37_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_37_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 37, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_38_mem, M_READ, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_38_mem_void, M_ASSIGN, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_38_mem, M_ASSIGN, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_38_mem_plain, M_READ, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_38_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_38_mem_plain, M_ASSIGN, 0, L_MEM, 3, 38, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_38_mvar, M_READ, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_38_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_38_mvar, M_ASSIGN, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_38_mvar_plain, M_READ, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_38_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_38_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 38, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_39_mem, M_READ, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_39_mem_void, M_ASSIGN, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_39_mem, M_ASSIGN, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_39_mem_plain, M_READ, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_39_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_39_mem_plain, M_ASSIGN, 0, L_MEM, 3, 39, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_39_mvar, M_READ, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_39_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_39_mvar, M_ASSIGN, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_39_mvar_plain, M_READ, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_39_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_39_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 39, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_40_mem, M_READ, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_40_mem_void, M_ASSIGN, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_40_mem, M_ASSIGN, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_40_mem_plain, M_READ, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_40_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_40_mem_plain, M_ASSIGN, 0, L_MEM, 3, 40, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_40_mvar, M_READ, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_40_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_40_mvar, M_ASSIGN, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_40_mvar_plain, M_READ, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_40_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_40_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 40, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_40_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_40_nint, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_40_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_40_oint, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_40_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_40_olong, M_ARITH, ND_ADD, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_40_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_40_nint, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_40_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_40_oint, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_40_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_40_olong, M_ARITH, ND_SUB, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_40_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_40_nint, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_40_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_40_oint, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_40_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_40_olong, M_ARITH, ND_DIV, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_40_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_40_nint, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_40_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_40_oint, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_40_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_40_olong, M_ARITH, ND_MOD, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_40_nint_void, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_40_nint, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_40_oint_void, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_40_oint, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_40_olong_void, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_40_olong, M_ARITH, ND_SHR, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_40_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_40_nint, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_40_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_40_oint, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_40_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_40_olong, M_ARITH, ND_BITOR, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_40_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_40_nint, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_40_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_40_oint, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_40_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_40_olong, M_ARITH, ND_MUL, L_MEM, 3, 40, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_40_void, M_POST, 0, L_MEM, 3, 40, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_40, M_POST, 0, L_MEM, 3, 40, 0, 8, 1, 0, 0, false, true)
AS(bfr_ulong_41_mem, M_READ, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_41_mem_void, M_ASSIGN, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_41_mem, M_ASSIGN, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_41_mem_plain, M_READ, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_41_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_41_mem_plain, M_ASSIGN, 0, L_MEM, 3, 41, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_41_mvar, M_READ, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_41_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_41_mvar, M_ASSIGN, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_41_mvar_plain, M_READ, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_41_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_41_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 41, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_42_mem, M_READ, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_42_mem_void, M_ASSIGN, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_42_mem, M_ASSIGN, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_42_mem_plain, M_READ, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_42_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_42_mem_plain, M_ASSIGN, 0, L_MEM, 3, 42, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_42_mvar, M_READ, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_42_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_42_mvar, M_ASSIGN, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_42_mvar_plain, M_READ, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_42_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_42_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 42, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_43_mem, M_READ, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_43_mem_void, M_ASSIGN, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_43_mem, M_ASSIGN, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_43_mem_plain, M_READ, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_43_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_43_mem_plain, M_ASSIGN, 0, L_MEM, 3, 43, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_43_mvar, M_READ, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_43_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_43_mvar, M_ASSIGN, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_43_mvar_plain, M_READ, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_43_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_43_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 43, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_44_mem, M_READ, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_44_mem_void, M_ASSIGN, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_44_mem, M_ASSIGN, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_44_mem_plain, M_READ, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_44_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_44_mem_plain, M_ASSIGN, 0, L_MEM, 3, 44, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_44_mvar, M_READ, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_44_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_44_mvar, M_ASSIGN, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_44_mvar_plain, M_READ, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_44_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_44_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 44, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_45_mem, M_READ, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_45_mem_void, M_ASSIGN, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_45_mem, M_ASSIGN, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_45_mem_plain, M_READ, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_45_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_45_mem_plain, M_ASSIGN, 0, L_MEM, 3, 45, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_45_mvar, M_READ, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_45_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_45_mvar, M_ASSIGN, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_45_mvar_plain, M_READ, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_45_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_45_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 45, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_46_mem, M_READ, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_46_mem_void, M_ASSIGN, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_46_mem, M_ASSIGN, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_46_mem_plain, M_READ, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_46_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_46_mem_plain, M_ASSIGN, 0, L_MEM, 3, 46, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_46_mvar, M_READ, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_46_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_46_mvar, M_ASSIGN, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_46_mvar_plain, M_READ, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_46_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_46_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 46, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_47_mem, M_READ, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_47_mem_void, M_ASSIGN, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_47_mem, M_ASSIGN, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_47_mem_plain, M_READ, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_47_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_47_mem_plain, M_ASSIGN, 0, L_MEM, 3, 47, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_47_mvar, M_READ, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_47_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_47_mvar, M_ASSIGN, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_47_mvar_plain, M_READ, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_47_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_47_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 47, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_48_mem, M_READ, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_48_mem_void, M_ASSIGN, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_48_mem, M_ASSIGN, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_48_mem_plain, M_READ, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_48_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_48_mem_plain, M_ASSIGN, 0, L_MEM, 3, 48, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_48_mvar, M_READ, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_48_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_48_mvar, M_ASSIGN, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_48_mvar_plain, M_READ, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_48_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_48_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 48, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_49_mem, M_READ, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_49_mem_void, M_ASSIGN, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_49_mem, M_ASSIGN, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_49_mem_plain, M_READ, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_49_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_49_mem_plain, M_ASSIGN, 0, L_MEM, 3, 49, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_49_mvar, M_READ, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_49_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_49_mvar, M_ASSIGN, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_49_mvar_plain, M_READ, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_49_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_49_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 49, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_50_mem, M_READ, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_50_mem_void, M_ASSIGN, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_50_mem, M_ASSIGN, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_50_mem_plain, M_READ, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_50_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_50_mem_plain, M_ASSIGN, 0, L_MEM, 3, 50, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_50_mvar, M_READ, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_50_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_50_mvar, M_ASSIGN, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_50_mvar_plain, M_READ, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_50_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_50_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 50, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_51_mem, M_READ, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_51_mem_void, M_ASSIGN, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_51_mem, M_ASSIGN, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_51_mem_plain, M_READ, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_51_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_51_mem_plain, M_ASSIGN, 0, L_MEM, 3, 51, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_51_mvar, M_READ, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_51_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_51_mvar, M_ASSIGN, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_51_mvar_plain, M_READ, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_51_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_51_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 51, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_52_mem, M_READ, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_52_mem_void, M_ASSIGN, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_52_mem, M_ASSIGN, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_52_mem_plain, M_READ, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_52_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_52_mem_plain, M_ASSIGN, 0, L_MEM, 3, 52, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_52_mvar, M_READ, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_52_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_52_mvar, M_ASSIGN, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_52_mvar_plain, M_READ, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_52_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_52_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 52, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_53_mem, M_READ, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_53_mem_void, M_ASSIGN, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_53_mem, M_ASSIGN, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_53_mem_plain, M_READ, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_53_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_53_mem_plain, M_ASSIGN, 0, L_MEM, 3, 53, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_53_mvar, M_READ, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_53_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_53_mvar, M_ASSIGN, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_53_mvar_plain, M_READ, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_53_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_53_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 53, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_54_mem, M_READ, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_54_mem_void, M_ASSIGN, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_54_mem, M_ASSIGN, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_54_mem_plain, M_READ, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_54_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_54_mem_plain, M_ASSIGN, 0, L_MEM, 3, 54, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_54_mvar, M_READ, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_54_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_54_mvar, M_ASSIGN, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_54_mvar_plain, M_READ, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_54_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_54_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 54, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_55_mem, M_READ, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_55_mem_void, M_ASSIGN, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_55_mem, M_ASSIGN, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_55_mem_plain, M_READ, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_55_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_55_mem_plain, M_ASSIGN, 0, L_MEM, 3, 55, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_55_mvar, M_READ, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_55_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_55_mvar, M_ASSIGN, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_55_mvar_plain, M_READ, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_55_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_55_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 55, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_56_mem, M_READ, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_56_mem_void, M_ASSIGN, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_56_mem, M_ASSIGN, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_56_mem_plain, M_READ, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_56_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_56_mem_plain, M_ASSIGN, 0, L_MEM, 3, 56, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_56_mvar, M_READ, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_56_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_56_mvar, M_ASSIGN, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_56_mvar_plain, M_READ, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_56_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_56_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 56, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_57_mem, M_READ, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_57_mem_void, M_ASSIGN, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_57_mem, M_ASSIGN, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_57_mem_plain, M_READ, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_57_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_57_mem_plain, M_ASSIGN, 0, L_MEM, 3, 57, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_57_mvar, M_READ, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_57_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_57_mvar, M_ASSIGN, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_57_mvar_plain, M_READ, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_57_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_57_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 57, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_58_mem, M_READ, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_58_mem_void, M_ASSIGN, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_58_mem, M_ASSIGN, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_58_mem_plain, M_READ, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_58_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_58_mem_plain, M_ASSIGN, 0, L_MEM, 3, 58, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_58_mvar, M_READ, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_58_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_58_mvar, M_ASSIGN, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_58_mvar_plain, M_READ, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_58_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_58_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 58, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_59_mem, M_READ, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_59_mem_void, M_ASSIGN, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_59_mem, M_ASSIGN, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_59_mem_plain, M_READ, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_59_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_59_mem_plain, M_ASSIGN, 0, L_MEM, 3, 59, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_59_mvar, M_READ, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_59_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_59_mvar, M_ASSIGN, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_59_mvar_plain, M_READ, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_59_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_59_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 59, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_60_mem, M_READ, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_60_mem_void, M_ASSIGN, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_60_mem, M_ASSIGN, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_60_mem_plain, M_READ, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_60_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_60_mem_plain, M_ASSIGN, 0, L_MEM, 3, 60, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_60_mvar, M_READ, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_60_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_60_mvar, M_ASSIGN, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_60_mvar_plain, M_READ, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_60_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_60_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 60, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_61_mem, M_READ, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_61_mem_void, M_ASSIGN, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_61_mem, M_ASSIGN, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_61_mem_plain, M_READ, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_61_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_61_mem_plain, M_ASSIGN, 0, L_MEM, 3, 61, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_61_mvar, M_READ, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_61_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_61_mvar, M_ASSIGN, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_61_mvar_plain, M_READ, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_61_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_61_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 61, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_62_mem, M_READ, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_62_mem_void, M_ASSIGN, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_62_mem, M_ASSIGN, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_62_mem_plain, M_READ, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_62_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_62_mem_plain, M_ASSIGN, 0, L_MEM, 3, 62, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_62_mvar, M_READ, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_62_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_62_mvar, M_ASSIGN, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_62_mvar_plain, M_READ, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_62_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_62_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 62, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_63_mem, M_READ, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_63_mem_void, M_ASSIGN, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_63_mem, M_ASSIGN, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_63_mem_plain, M_READ, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_63_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_63_mem_plain, M_ASSIGN, 0, L_MEM, 3, 63, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_63_mvar, M_READ, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_63_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_63_mvar, M_ASSIGN, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_63_mvar_plain, M_READ, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_63_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_63_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 63, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_64_mem, M_READ, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_64_mem_void, M_ASSIGN, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_64_mem, M_ASSIGN, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_64_mem_plain, M_READ, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_64_mem_plain_void, M_ASSIGN, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_64_mem_plain, M_ASSIGN, 0, L_MEM, 3, 64, 0, 8, 0, 3, 0, false, false)
AS(bfr_ulong_64_mvar, M_READ, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, false, true)
AS(bfw_ulong_64_mvar_void, M_ASSIGN, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, true, true)
AS(bfw_ulong_64_mvar, M_ASSIGN, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, false, true)
AS(bfr_ulong_64_mvar_plain, M_READ, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, false, false)
AS(bfw_ulong_64_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, true, false)
AS(bfw_ulong_64_mvar_plain, M_ASSIGN, 0, L_MVAR, 3, 64, 0, 8, 0, 3, 0, false, false)
AS(bfa_add_ulong_64_nint_void, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_ulong_64_nint, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_ulong_64_oint_void, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_ulong_64_oint, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_ulong_64_olong_void, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_ulong_64_olong, M_ARITH, ND_ADD, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_ulong_64_nint_void, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_ulong_64_nint, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_ulong_64_oint_void, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_ulong_64_oint, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_ulong_64_olong_void, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_ulong_64_olong, M_ARITH, ND_SUB, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_ulong_64_nint_void, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_ulong_64_nint, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_ulong_64_oint_void, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_ulong_64_oint, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_ulong_64_olong_void, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_ulong_64_olong, M_ARITH, ND_DIV, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_ulong_64_nint_void, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_ulong_64_nint, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_ulong_64_oint_void, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_ulong_64_oint, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_ulong_64_olong_void, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_ulong_64_olong, M_ARITH, ND_MOD, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_ulong_64_nint_void, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_ulong_64_nint, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_ulong_64_oint_void, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_ulong_64_oint, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_ulong_64_olong_void, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_ulong_64_olong, M_ARITH, ND_SHR, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_ulong_64_nint_void, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_ulong_64_nint, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_ulong_64_oint_void, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_ulong_64_oint, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_ulong_64_olong_void, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_ulong_64_olong, M_ARITH, ND_BITOR, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_ulong_64_nint_void, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_ulong_64_nint, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_ulong_64_oint_void, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_ulong_64_oint, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_ulong_64_olong_void, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_ulong_64_olong, M_ARITH, ND_MUL, L_MEM, 3, 64, 0, 8, 0, 2, 0, false, true)
AS(bfp_ulong_64_void, M_POST, 0, L_MEM, 3, 64, 0, 8, 1, 0, 0, true, true)
AS(bfp_ulong_64, M_POST, 0, L_MEM, 3, 64, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_1_mem, M_READ, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_1_mem_void, M_ASSIGN, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_1_mem, M_ASSIGN, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_1_mem_plain, M_READ, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_1_mem_plain, M_ASSIGN, 0, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_1_mvar, M_READ, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_1_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_1_mvar, M_ASSIGN, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_1_mvar_plain, M_READ, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 1, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_1_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_1_nint, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_1_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_1_oint, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_1_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_1_olong, M_ARITH, ND_ADD, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_1_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_1_nint, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_1_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_1_oint, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_1_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_1_olong, M_ARITH, ND_SUB, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_1_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_1_nint, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_1_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_1_oint, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_1_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_1_olong, M_ARITH, ND_DIV, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_1_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_1_nint, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_1_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_1_oint, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_1_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_1_olong, M_ARITH, ND_MOD, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_1_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_1_nint, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_1_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_1_oint, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_1_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_1_olong, M_ARITH, ND_SAR, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_1_nint, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_1_oint, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_1_olong, M_ARITH, ND_BITOR, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_1_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_1_nint, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_1_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_1_oint, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_1_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_1_olong, M_ARITH, ND_MUL, L_MEM, 2, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_1_void, M_POST, 0, L_MEM, 2, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_1, M_POST, 0, L_MEM, 2, 1, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_2_mem, M_READ, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_2_mem_void, M_ASSIGN, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_2_mem, M_ASSIGN, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_2_mem_plain, M_READ, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_2_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_2_mem_plain, M_ASSIGN, 0, L_MEM, 2, 2, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_2_mvar, M_READ, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_2_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_2_mvar, M_ASSIGN, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_2_mvar_plain, M_READ, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_2_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_2_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 2, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_3_mem, M_READ, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_3_mem_void, M_ASSIGN, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_3_mem, M_ASSIGN, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_3_mem_plain, M_READ, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_3_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_3_mem_plain, M_ASSIGN, 0, L_MEM, 2, 3, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_3_mvar, M_READ, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_3_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_3_mvar, M_ASSIGN, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_3_mvar_plain, M_READ, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_3_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_3_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 3, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_4_mem, M_READ, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_4_mem_void, M_ASSIGN, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_4_mem, M_ASSIGN, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_4_mem_plain, M_READ, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_4_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_4_mem_plain, M_ASSIGN, 0, L_MEM, 2, 4, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_4_mvar, M_READ, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_4_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_4_mvar, M_ASSIGN, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_4_mvar_plain, M_READ, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_4_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_4_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 4, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_5_mem, M_READ, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_5_mem_void, M_ASSIGN, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_5_mem, M_ASSIGN, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_5_mem_plain, M_READ, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_5_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_5_mem_plain, M_ASSIGN, 0, L_MEM, 2, 5, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_5_mvar, M_READ, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_5_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_5_mvar, M_ASSIGN, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_5_mvar_plain, M_READ, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_5_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_5_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 5, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_6_mem, M_READ, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_6_mem_void, M_ASSIGN, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_6_mem, M_ASSIGN, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_6_mem_plain, M_READ, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_6_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_6_mem_plain, M_ASSIGN, 0, L_MEM, 2, 6, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_6_mvar, M_READ, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_6_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_6_mvar, M_ASSIGN, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_6_mvar_plain, M_READ, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_6_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_6_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 6, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_7_mem, M_READ, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_7_mem_void, M_ASSIGN, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_7_mem, M_ASSIGN, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_7_mem_plain, M_READ, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_7_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_7_mem_plain, M_ASSIGN, 0, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_7_mvar, M_READ, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_7_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_7_mvar, M_ASSIGN, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_7_mvar_plain, M_READ, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_7_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_7_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 7, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_7_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_7_nint, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_7_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_7_oint, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_7_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_7_olong, M_ARITH, ND_ADD, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_7_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_7_nint, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_7_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_7_oint, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_7_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_7_olong, M_ARITH, ND_SUB, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_7_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_7_nint, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_7_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_7_oint, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_7_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_7_olong, M_ARITH, ND_DIV, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_7_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_7_nint, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_7_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_7_oint, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_7_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_7_olong, M_ARITH, ND_MOD, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_7_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_7_nint, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_7_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_7_oint, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_7_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_7_olong, M_ARITH, ND_SAR, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_7_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_7_nint, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_7_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_7_oint, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_7_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_7_olong, M_ARITH, ND_BITOR, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_7_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_7_nint, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_7_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_7_oint, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_7_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_7_olong, M_ARITH, ND_MUL, L_MEM, 2, 7, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_7_void, M_POST, 0, L_MEM, 2, 7, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_7, M_POST, 0, L_MEM, 2, 7, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_8_mem, M_READ, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_8_mem_void, M_ASSIGN, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_8_mem, M_ASSIGN, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_8_mem_plain, M_READ, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_8_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_8_mem_plain, M_ASSIGN, 0, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_8_mvar, M_READ, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_8_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_8_mvar, M_ASSIGN, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_8_mvar_plain, M_READ, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_8_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_8_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 8, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_8_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_8_nint, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_8_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_8_oint, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_8_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_8_olong, M_ARITH, ND_ADD, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_8_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_8_nint, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_8_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_8_oint, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_8_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_8_olong, M_ARITH, ND_SUB, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_8_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_8_nint, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_8_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_8_oint, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_8_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_8_olong, M_ARITH, ND_DIV, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_8_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_8_nint, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_8_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_8_oint, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_8_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_8_olong, M_ARITH, ND_MOD, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_8_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_8_nint, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_8_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_8_oint, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_8_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_8_olong, M_ARITH, ND_SAR, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_8_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_8_nint, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_8_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_8_oint, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_8_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_8_olong, M_ARITH, ND_BITOR, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_8_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_8_nint, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_8_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_8_oint, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_8_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_8_olong, M_ARITH, ND_MUL, L_MEM, 2, 8, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_8_void, M_POST, 0, L_MEM, 2, 8, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_8, M_POST, 0, L_MEM, 2, 8, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_9_mem, M_READ, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_9_mem_void, M_ASSIGN, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_9_mem, M_ASSIGN, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_9_mem_plain, M_READ, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_9_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_9_mem_plain, M_ASSIGN, 0, L_MEM, 2, 9, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_9_mvar, M_READ, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_9_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_9_mvar, M_ASSIGN, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_9_mvar_plain, M_READ, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_9_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_9_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 9, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_10_mem, M_READ, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_10_mem_void, M_ASSIGN, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_10_mem, M_ASSIGN, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_10_mem_plain, M_READ, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_10_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_10_mem_plain, M_ASSIGN, 0, L_MEM, 2, 10, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_10_mvar, M_READ, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_10_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_10_mvar, M_ASSIGN, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_10_mvar_plain, M_READ, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_10_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_10_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 10, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_11_mem, M_READ, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_11_mem_void, M_ASSIGN, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_11_mem, M_ASSIGN, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_11_mem_plain, M_READ, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_11_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_11_mem_plain, M_ASSIGN, 0, L_MEM, 2, 11, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_11_mvar, M_READ, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_11_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_11_mvar, M_ASSIGN, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_11_mvar_plain, M_READ, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_11_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_11_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 11, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_12_mem, M_READ, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_12_mem_void, M_ASSIGN, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_12_mem, M_ASSIGN, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_12_mem_plain, M_READ, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_12_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_12_mem_plain, M_ASSIGN, 0, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_12_mvar, M_READ, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_12_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_12_mvar, M_ASSIGN, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_12_mvar_plain, M_READ, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_12_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_12_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 12, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_12_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_12_nint, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_12_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_12_oint, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_12_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_12_olong, M_ARITH, ND_ADD, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_12_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_12_nint, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_12_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_12_oint, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_12_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_12_olong, M_ARITH, ND_SUB, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_12_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_12_nint, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_12_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_12_oint, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_12_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_12_olong, M_ARITH, ND_DIV, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_12_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_12_nint, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_12_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_12_oint, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_12_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_12_olong, M_ARITH, ND_MOD, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_12_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_12_nint, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_12_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_12_oint, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_12_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_12_olong, M_ARITH, ND_SAR, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_12_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_12_nint, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_12_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_12_oint, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_12_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_12_olong, M_ARITH, ND_BITOR, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_12_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_12_nint, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_12_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_12_oint, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_12_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_12_olong, M_ARITH, ND_MUL, L_MEM, 2, 12, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_12_void, M_POST, 0, L_MEM, 2, 12, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_12, M_POST, 0, L_MEM, 2, 12, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_13_mem, M_READ, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_13_mem_void, M_ASSIGN, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_13_mem, M_ASSIGN, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_13_mem_plain, M_READ, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_13_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_13_mem_plain, M_ASSIGN, 0, L_MEM, 2, 13, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_13_mvar, M_READ, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_13_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_13_mvar, M_ASSIGN, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_13_mvar_plain, M_READ, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_13_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_13_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 13, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_14_mem, M_READ, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_14_mem_void, M_ASSIGN, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_14_mem, M_ASSIGN, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_14_mem_plain, M_READ, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_14_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_14_mem_plain, M_ASSIGN, 0, L_MEM, 2, 14, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_14_mvar, M_READ, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_14_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_14_mvar, M_ASSIGN, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_14_mvar_plain, M_READ, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_14_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_14_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 14, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_15_mem, M_READ, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_15_mem_void, M_ASSIGN, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_15_mem, M_ASSIGN, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_15_mem_plain, M_READ, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_15_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_15_mem_plain, M_ASSIGN, 0, L_MEM, 2, 15, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_15_mvar, M_READ, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_15_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_15_mvar, M_ASSIGN, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_15_mvar_plain, M_READ, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_15_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_15_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 15, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_16_mem, M_READ, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_16_mem_void, M_ASSIGN, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_16_mem, M_ASSIGN, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_16_mem_plain, M_READ, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_16_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_16_mem_plain, M_ASSIGN, 0, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_16_mvar, M_READ, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_16_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_16_mvar, M_ASSIGN, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_16_mvar_plain, M_READ, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_16_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_16_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 16, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_16_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_16_nint, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_16_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_16_oint, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_16_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_16_olong, M_ARITH, ND_ADD, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_16_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_16_nint, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_16_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_16_oint, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_16_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_16_olong, M_ARITH, ND_SUB, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_16_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_16_nint, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_16_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_16_oint, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_16_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_16_olong, M_ARITH, ND_DIV, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_16_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_16_nint, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_16_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_16_oint, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_16_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_16_olong, M_ARITH, ND_MOD, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_16_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_16_nint, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_16_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_16_oint, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_16_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_16_olong, M_ARITH, ND_SAR, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_16_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_16_nint, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_16_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_16_oint, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_16_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_16_olong, M_ARITH, ND_BITOR, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_16_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_16_nint, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_16_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_16_oint, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_16_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_16_olong, M_ARITH, ND_MUL, L_MEM, 2, 16, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_16_void, M_POST, 0, L_MEM, 2, 16, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_16, M_POST, 0, L_MEM, 2, 16, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_17_mem, M_READ, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_17_mem_void, M_ASSIGN, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_17_mem, M_ASSIGN, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_17_mem_plain, M_READ, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_17_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_17_mem_plain, M_ASSIGN, 0, L_MEM, 2, 17, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_17_mvar, M_READ, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_17_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_17_mvar, M_ASSIGN, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_17_mvar_plain, M_READ, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_17_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_17_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 17, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_18_mem, M_READ, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_18_mem_void, M_ASSIGN, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_18_mem, M_ASSIGN, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_18_mem_plain, M_READ, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_18_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_18_mem_plain, M_ASSIGN, 0, L_MEM, 2, 18, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_18_mvar, M_READ, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_18_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_18_mvar, M_ASSIGN, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_18_mvar_plain, M_READ, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_18_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_18_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 18, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_19_mem, M_READ, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_19_mem_void, M_ASSIGN, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_19_mem, M_ASSIGN, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_19_mem_plain, M_READ, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_19_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_19_mem_plain, M_ASSIGN, 0, L_MEM, 2, 19, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_19_mvar, M_READ, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_19_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_19_mvar, M_ASSIGN, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_19_mvar_plain, M_READ, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_19_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_19_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 19, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_20_mem, M_READ, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_20_mem_void, M_ASSIGN, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_20_mem, M_ASSIGN, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_20_mem_plain, M_READ, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_20_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_20_mem_plain, M_ASSIGN, 0, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_20_mvar, M_READ, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_20_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_20_mvar, M_ASSIGN, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_20_mvar_plain, M_READ, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_20_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_20_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 20, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_20_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_20_nint, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_20_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_20_oint, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_20_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_20_olong, M_ARITH, ND_ADD, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_20_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_20_nint, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_20_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_20_oint, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_20_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_20_olong, M_ARITH, ND_SUB, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_20_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_20_nint, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_20_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_20_oint, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_20_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_20_olong, M_ARITH, ND_DIV, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_20_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_20_nint, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_20_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_20_oint, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_20_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_20_olong, M_ARITH, ND_MOD, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_20_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_20_nint, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_20_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_20_oint, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_20_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_20_olong, M_ARITH, ND_SAR, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_20_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_20_nint, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_20_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_20_oint, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_20_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_20_olong, M_ARITH, ND_BITOR, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_20_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_20_nint, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_20_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_20_oint, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_20_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_20_olong, M_ARITH, ND_MUL, L_MEM, 2, 20, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_20_void, M_POST, 0, L_MEM, 2, 20, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_20, M_POST, 0, L_MEM, 2, 20, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_21_mem, M_READ, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_21_mem_void, M_ASSIGN, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_21_mem, M_ASSIGN, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_21_mem_plain, M_READ, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_21_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_21_mem_plain, M_ASSIGN, 0, L_MEM, 2, 21, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_21_mvar, M_READ, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_21_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_21_mvar, M_ASSIGN, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_21_mvar_plain, M_READ, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_21_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_21_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 21, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_22_mem, M_READ, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_22_mem_void, M_ASSIGN, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_22_mem, M_ASSIGN, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_22_mem_plain, M_READ, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_22_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_22_mem_plain, M_ASSIGN, 0, L_MEM, 2, 22, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_22_mvar, M_READ, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_22_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_22_mvar, M_ASSIGN, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_22_mvar_plain, M_READ, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_22_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_22_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 22, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_23_mem, M_READ, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_23_mem_void, M_ASSIGN, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_23_mem, M_ASSIGN, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_23_mem_plain, M_READ, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_23_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_23_mem_plain, M_ASSIGN, 0, L_MEM, 2, 23, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_23_mvar, M_READ, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_23_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_23_mvar, M_ASSIGN, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_23_mvar_plain, M_READ, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_23_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_23_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 23, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_24_mem, M_READ, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_24_mem_void, M_ASSIGN, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_24_mem, M_ASSIGN, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_24_mem_plain, M_READ, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_24_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_24_mem_plain, M_ASSIGN, 0, L_MEM, 2, 24, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_24_mvar, M_READ, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_24_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_24_mvar, M_ASSIGN, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_24_mvar_plain, M_READ, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_24_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_24_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 24, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_25_mem, M_READ, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_25_mem_void, M_ASSIGN, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_25_mem, M_ASSIGN, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_25_mem_plain, M_READ, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_25_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_25_mem_plain, M_ASSIGN, 0, L_MEM, 2, 25, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_25_mvar, M_READ, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_25_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_25_mvar, M_ASSIGN, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_25_mvar_plain, M_READ, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_25_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_25_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 25, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_26_mem, M_READ, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_26_mem_void, M_ASSIGN, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_26_mem, M_ASSIGN, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_26_mem_plain, M_READ, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_26_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_26_mem_plain, M_ASSIGN, 0, L_MEM, 2, 26, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_26_mvar, M_READ, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_26_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_26_mvar, M_ASSIGN, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_26_mvar_plain, M_READ, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_26_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_26_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 26, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_27_mem, M_READ, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_27_mem_void, M_ASSIGN, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_27_mem, M_ASSIGN, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_27_mem_plain, M_READ, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_27_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_27_mem_plain, M_ASSIGN, 0, L_MEM, 2, 27, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_27_mvar, M_READ, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_27_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_27_mvar, M_ASSIGN, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_27_mvar_plain, M_READ, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_27_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_27_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 27, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_28_mem, M_READ, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_28_mem_void, M_ASSIGN, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_28_mem, M_ASSIGN, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_28_mem_plain, M_READ, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_28_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_28_mem_plain, M_ASSIGN, 0, L_MEM, 2, 28, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_28_mvar, M_READ, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_28_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_28_mvar, M_ASSIGN, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_28_mvar_plain, M_READ, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_28_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_28_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 28, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_29_mem, M_READ, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_29_mem_void, M_ASSIGN, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_29_mem, M_ASSIGN, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_29_mem_plain, M_READ, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_29_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_29_mem_plain, M_ASSIGN, 0, L_MEM, 2, 29, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_29_mvar, M_READ, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_29_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_29_mvar, M_ASSIGN, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_29_mvar_plain, M_READ, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_29_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_29_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 29, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_30_mem, M_READ, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_30_mem_void, M_ASSIGN, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_30_mem, M_ASSIGN, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_30_mem_plain, M_READ, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_30_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_30_mem_plain, M_ASSIGN, 0, L_MEM, 2, 30, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_30_mvar, M_READ, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_30_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_30_mvar, M_ASSIGN, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_30_mvar_plain, M_READ, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_30_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_30_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 30, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_31_mem, M_READ, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_31_mem_void, M_ASSIGN, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_31_mem, M_ASSIGN, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_31_mem_plain, M_READ, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_31_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_31_mem_plain, M_ASSIGN, 0, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_31_mvar, M_READ, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_31_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_31_mvar, M_ASSIGN, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_31_mvar_plain, M_READ, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_31_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_31_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 31, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_31_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_31_nint, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_31_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_31_oint, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_31_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_31_olong, M_ARITH, ND_ADD, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_31_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_31_nint, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_31_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_31_oint, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_31_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_31_olong, M_ARITH, ND_SUB, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_31_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_31_nint, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_31_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_31_oint, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_31_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_31_olong, M_ARITH, ND_DIV, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_31_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_31_nint, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_31_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_31_oint, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_31_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_31_olong, M_ARITH, ND_MOD, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_31_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_31_nint, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_31_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_31_oint, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_31_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_31_olong, M_ARITH, ND_SAR, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_31_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_31_nint, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_31_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_31_oint, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_31_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_31_olong, M_ARITH, ND_BITOR, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_31_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_31_nint, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_31_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_31_oint, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_31_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_31_olong, M_ARITH, ND_MUL, L_MEM, 2, 31, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_31_void, M_POST, 0, L_MEM, 2, 31, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_31, M_POST, 0, L_MEM, 2, 31, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_32_mem, M_READ, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_32_mem_void, M_ASSIGN, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_32_mem, M_ASSIGN, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_32_mem_plain, M_READ, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_32_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_32_mem_plain, M_ASSIGN, 0, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_32_mvar, M_READ, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_32_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_32_mvar, M_ASSIGN, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_32_mvar_plain, M_READ, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_32_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_32_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 32, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_32_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_32_nint, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_32_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_32_oint, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_32_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_32_olong, M_ARITH, ND_ADD, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_32_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_32_nint, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_32_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_32_oint, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_32_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_32_olong, M_ARITH, ND_SUB, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_32_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_32_nint, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_32_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_32_oint, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_32_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_32_olong, M_ARITH, ND_DIV, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_32_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_32_nint, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_32_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_32_oint, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_32_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_32_olong, M_ARITH, ND_MOD, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_32_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_32_nint, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_32_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_32_oint, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_32_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_32_olong, M_ARITH, ND_SAR, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_32_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_32_nint, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_32_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_32_oint, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_32_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_32_olong, M_ARITH, ND_BITOR, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_32_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_32_nint, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_32_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_32_oint, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_32_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_32_olong, M_ARITH, ND_MUL, L_MEM, 2, 32, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_32_void, M_POST, 0, L_MEM, 2, 32, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_32, M_POST, 0, L_MEM, 2, 32, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_33_mem, M_READ, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_33_mem_void, M_ASSIGN, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_33_mem, M_ASSIGN, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_33_mem_plain, M_READ, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_33_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_33_mem_plain, M_ASSIGN, 0, L_MEM, 2, 33, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_33_mvar, M_READ, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_33_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_33_mvar, M_ASSIGN, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_33_mvar_plain, M_READ, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_33_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_33_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 33, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_34_mem, M_READ, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_34_mem_void, M_ASSIGN, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_34_mem, M_ASSIGN, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_34_mem_plain, M_READ, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_34_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_34_mem_plain, M_ASSIGN, 0, L_MEM, 2, 34, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_34_mvar, M_READ, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_34_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_34_mvar, M_ASSIGN, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_34_mvar_plain, M_READ, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_34_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_34_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 34, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_35_mem, M_READ, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_35_mem_void, M_ASSIGN, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_35_mem, M_ASSIGN, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_35_mem_plain, M_READ, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_35_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_35_mem_plain, M_ASSIGN, 0, L_MEM, 2, 35, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_35_mvar, M_READ, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_35_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_35_mvar, M_ASSIGN, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_35_mvar_plain, M_READ, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_35_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_35_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 35, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_36_mem, M_READ, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_36_mem_void, M_ASSIGN, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_36_mem, M_ASSIGN, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_36_mem_plain, M_READ, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_36_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_36_mem_plain, M_ASSIGN, 0, L_MEM, 2, 36, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_36_mvar, M_READ, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_36_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_36_mvar, M_ASSIGN, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_36_mvar_plain, M_READ, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_36_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_36_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 36, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_37_mem, M_READ, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_37_mem_void, M_ASSIGN, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_37_mem, M_ASSIGN, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_37_mem_plain, M_READ, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_37_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_37_mem_plain, M_ASSIGN, 0, L_MEM, 2, 37, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_37_mvar, M_READ, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_37_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_37_mvar, M_ASSIGN, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_37_mvar_plain, M_READ, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_37_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_37_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 37, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_38_mem, M_READ, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_38_mem_void, M_ASSIGN, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_38_mem, M_ASSIGN, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_38_mem_plain, M_READ, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_38_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_38_mem_plain, M_ASSIGN, 0, L_MEM, 2, 38, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_38_mvar, M_READ, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_38_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_38_mvar, M_ASSIGN, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_38_mvar_plain, M_READ, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_38_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_38_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 38, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_39_mem, M_READ, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_39_mem_void, M_ASSIGN, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_39_mem, M_ASSIGN, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_39_mem_plain, M_READ, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_39_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_39_mem_plain, M_ASSIGN, 0, L_MEM, 2, 39, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_39_mvar, M_READ, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_39_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_39_mvar, M_ASSIGN, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_39_mvar_plain, M_READ, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_39_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_39_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 39, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_40_mem, M_READ, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_40_mem_void, M_ASSIGN, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_40_mem, M_ASSIGN, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_40_mem_plain, M_READ, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_40_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_40_mem_plain, M_ASSIGN, 0, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_40_mvar, M_READ, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_40_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_40_mvar, M_ASSIGN, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_40_mvar_plain, M_READ, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_40_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_40_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 40, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_40_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_40_nint, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_40_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_40_oint, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_40_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_40_olong, M_ARITH, ND_ADD, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_40_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_40_nint, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_40_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_40_oint, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_40_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_40_olong, M_ARITH, ND_SUB, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_40_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_40_nint, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_40_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_40_oint, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_40_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_40_olong, M_ARITH, ND_DIV, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_40_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_40_nint, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_40_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_40_oint, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_40_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_40_olong, M_ARITH, ND_MOD, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_40_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_40_nint, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_40_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_40_oint, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_40_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_40_olong, M_ARITH, ND_SAR, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_40_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_40_nint, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_40_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_40_oint, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_40_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_40_olong, M_ARITH, ND_BITOR, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_40_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_40_nint, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_40_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_40_oint, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_40_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_40_olong, M_ARITH, ND_MUL, L_MEM, 2, 40, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_40_void, M_POST, 0, L_MEM, 2, 40, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_40, M_POST, 0, L_MEM, 2, 40, 0, 8, 1, 0, 0, false, true)
AS(bfr_long_41_mem, M_READ, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_41_mem_void, M_ASSIGN, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_41_mem, M_ASSIGN, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_41_mem_plain, M_READ, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_41_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_41_mem_plain, M_ASSIGN, 0, L_MEM, 2, 41, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_41_mvar, M_READ, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_41_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_41_mvar, M_ASSIGN, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_41_mvar_plain, M_READ, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_41_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_41_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 41, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_42_mem, M_READ, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_42_mem_void, M_ASSIGN, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_42_mem, M_ASSIGN, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_42_mem_plain, M_READ, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_42_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_42_mem_plain, M_ASSIGN, 0, L_MEM, 2, 42, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_42_mvar, M_READ, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_42_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_42_mvar, M_ASSIGN, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_42_mvar_plain, M_READ, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_42_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_42_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 42, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_43_mem, M_READ, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_43_mem_void, M_ASSIGN, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_43_mem, M_ASSIGN, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_43_mem_plain, M_READ, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_43_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_43_mem_plain, M_ASSIGN, 0, L_MEM, 2, 43, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_43_mvar, M_READ, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_43_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_43_mvar, M_ASSIGN, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_43_mvar_plain, M_READ, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_43_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_43_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 43, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_44_mem, M_READ, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_44_mem_void, M_ASSIGN, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_44_mem, M_ASSIGN, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_44_mem_plain, M_READ, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_44_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_44_mem_plain, M_ASSIGN, 0, L_MEM, 2, 44, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_44_mvar, M_READ, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_44_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_44_mvar, M_ASSIGN, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_44_mvar_plain, M_READ, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_44_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_44_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 44, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_45_mem, M_READ, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_45_mem_void, M_ASSIGN, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_45_mem, M_ASSIGN, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_45_mem_plain, M_READ, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_45_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_45_mem_plain, M_ASSIGN, 0, L_MEM, 2, 45, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_45_mvar, M_READ, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_45_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_45_mvar, M_ASSIGN, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_45_mvar_plain, M_READ, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_45_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_45_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 45, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_46_mem, M_READ, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_46_mem_void, M_ASSIGN, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_46_mem, M_ASSIGN, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_46_mem_plain, M_READ, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_46_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_46_mem_plain, M_ASSIGN, 0, L_MEM, 2, 46, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_46_mvar, M_READ, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_46_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_46_mvar, M_ASSIGN, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_46_mvar_plain, M_READ, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_46_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_46_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 46, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_47_mem, M_READ, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_47_mem_void, M_ASSIGN, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_47_mem, M_ASSIGN, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_47_mem_plain, M_READ, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_47_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_47_mem_plain, M_ASSIGN, 0, L_MEM, 2, 47, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_47_mvar, M_READ, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_47_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_47_mvar, M_ASSIGN, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_47_mvar_plain, M_READ, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_47_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_47_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 47, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_48_mem, M_READ, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_48_mem_void, M_ASSIGN, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_48_mem, M_ASSIGN, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_48_mem_plain, M_READ, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_48_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_48_mem_plain, M_ASSIGN, 0, L_MEM, 2, 48, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_48_mvar, M_READ, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_48_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_48_mvar, M_ASSIGN, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_48_mvar_plain, M_READ, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_48_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_48_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 48, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_49_mem, M_READ, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_49_mem_void, M_ASSIGN, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_49_mem, M_ASSIGN, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_49_mem_plain, M_READ, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_49_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_49_mem_plain, M_ASSIGN, 0, L_MEM, 2, 49, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_49_mvar, M_READ, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_49_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_49_mvar, M_ASSIGN, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_49_mvar_plain, M_READ, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_49_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_49_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 49, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_50_mem, M_READ, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_50_mem_void, M_ASSIGN, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_50_mem, M_ASSIGN, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_50_mem_plain, M_READ, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_50_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_50_mem_plain, M_ASSIGN, 0, L_MEM, 2, 50, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_50_mvar, M_READ, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_50_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_50_mvar, M_ASSIGN, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_50_mvar_plain, M_READ, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_50_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_50_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 50, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_51_mem, M_READ, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_51_mem_void, M_ASSIGN, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_51_mem, M_ASSIGN, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_51_mem_plain, M_READ, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_51_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_51_mem_plain, M_ASSIGN, 0, L_MEM, 2, 51, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_51_mvar, M_READ, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_51_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_51_mvar, M_ASSIGN, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_51_mvar_plain, M_READ, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_51_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_51_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 51, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_52_mem, M_READ, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_52_mem_void, M_ASSIGN, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_52_mem, M_ASSIGN, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_52_mem_plain, M_READ, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_52_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_52_mem_plain, M_ASSIGN, 0, L_MEM, 2, 52, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_52_mvar, M_READ, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_52_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_52_mvar, M_ASSIGN, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_52_mvar_plain, M_READ, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_52_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_52_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 52, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_53_mem, M_READ, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_53_mem_void, M_ASSIGN, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_53_mem, M_ASSIGN, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_53_mem_plain, M_READ, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_53_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_53_mem_plain, M_ASSIGN, 0, L_MEM, 2, 53, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_53_mvar, M_READ, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_53_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_53_mvar, M_ASSIGN, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_53_mvar_plain, M_READ, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_53_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_53_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 53, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_54_mem, M_READ, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_54_mem_void, M_ASSIGN, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_54_mem, M_ASSIGN, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_54_mem_plain, M_READ, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_54_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_54_mem_plain, M_ASSIGN, 0, L_MEM, 2, 54, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_54_mvar, M_READ, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_54_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_54_mvar, M_ASSIGN, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_54_mvar_plain, M_READ, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_54_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_54_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 54, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_55_mem, M_READ, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_55_mem_void, M_ASSIGN, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_55_mem, M_ASSIGN, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_55_mem_plain, M_READ, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_55_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_55_mem_plain, M_ASSIGN, 0, L_MEM, 2, 55, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_55_mvar, M_READ, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_55_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_55_mvar, M_ASSIGN, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_55_mvar_plain, M_READ, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_55_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_55_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 55, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_56_mem, M_READ, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_56_mem_void, M_ASSIGN, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_56_mem, M_ASSIGN, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_56_mem_plain, M_READ, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_56_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_56_mem_plain, M_ASSIGN, 0, L_MEM, 2, 56, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_56_mvar, M_READ, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_56_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_56_mvar, M_ASSIGN, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_56_mvar_plain, M_READ, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_56_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_56_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 56, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_57_mem, M_READ, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_57_mem_void, M_ASSIGN, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_57_mem, M_ASSIGN, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_57_mem_plain, M_READ, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_57_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_57_mem_plain, M_ASSIGN, 0, L_MEM, 2, 57, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_57_mvar, M_READ, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_57_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_57_mvar, M_ASSIGN, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_57_mvar_plain, M_READ, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_57_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_57_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 57, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_58_mem, M_READ, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_58_mem_void, M_ASSIGN, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_58_mem, M_ASSIGN, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_58_mem_plain, M_READ, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_58_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_58_mem_plain, M_ASSIGN, 0, L_MEM, 2, 58, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_58_mvar, M_READ, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_58_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_58_mvar, M_ASSIGN, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_58_mvar_plain, M_READ, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_58_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_58_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 58, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_59_mem, M_READ, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_59_mem_void, M_ASSIGN, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_59_mem, M_ASSIGN, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_59_mem_plain, M_READ, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_59_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_59_mem_plain, M_ASSIGN, 0, L_MEM, 2, 59, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_59_mvar, M_READ, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_59_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_59_mvar, M_ASSIGN, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_59_mvar_plain, M_READ, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_59_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_59_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 59, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_60_mem, M_READ, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_60_mem_void, M_ASSIGN, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_60_mem, M_ASSIGN, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_60_mem_plain, M_READ, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_60_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_60_mem_plain, M_ASSIGN, 0, L_MEM, 2, 60, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_60_mvar, M_READ, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_60_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_60_mvar, M_ASSIGN, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_60_mvar_plain, M_READ, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_60_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_60_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 60, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_61_mem, M_READ, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_61_mem_void, M_ASSIGN, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_61_mem, M_ASSIGN, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_61_mem_plain, M_READ, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_61_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_61_mem_plain, M_ASSIGN, 0, L_MEM, 2, 61, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_61_mvar, M_READ, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_61_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_61_mvar, M_ASSIGN, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_61_mvar_plain, M_READ, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_61_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_61_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 61, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_62_mem, M_READ, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_62_mem_void, M_ASSIGN, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_62_mem, M_ASSIGN, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_62_mem_plain, M_READ, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_62_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_62_mem_plain, M_ASSIGN, 0, L_MEM, 2, 62, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_62_mvar, M_READ, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_62_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_62_mvar, M_ASSIGN, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_62_mvar_plain, M_READ, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_62_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_62_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 62, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_63_mem, M_READ, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_63_mem_void, M_ASSIGN, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_63_mem, M_ASSIGN, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_63_mem_plain, M_READ, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_63_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_63_mem_plain, M_ASSIGN, 0, L_MEM, 2, 63, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_63_mvar, M_READ, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_63_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_63_mvar, M_ASSIGN, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_63_mvar_plain, M_READ, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_63_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_63_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 63, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_64_mem, M_READ, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_64_mem_void, M_ASSIGN, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_64_mem, M_ASSIGN, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_64_mem_plain, M_READ, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_64_mem_plain_void, M_ASSIGN, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_64_mem_plain, M_ASSIGN, 0, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, false)
AS(bfr_long_64_mvar, M_READ, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfw_long_64_mvar_void, M_ASSIGN, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfw_long_64_mvar, M_ASSIGN, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfr_long_64_mvar_plain, M_READ, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, false, false)
AS(bfw_long_64_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, true, false)
AS(bfw_long_64_mvar_plain, M_ASSIGN, 0, L_MVAR, 2, 64, 0, 8, 0, 2, 0, false, false)
AS(bfa_add_long_64_nint_void, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_long_64_nint, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_long_64_oint_void, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_long_64_oint, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_long_64_olong_void, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_long_64_olong, M_ARITH, ND_ADD, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_long_64_nint_void, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_long_64_nint, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_long_64_oint_void, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_long_64_oint, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_long_64_olong_void, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_long_64_olong, M_ARITH, ND_SUB, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_long_64_nint_void, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_long_64_nint, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_long_64_oint_void, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_long_64_oint, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_long_64_olong_void, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_long_64_olong, M_ARITH, ND_DIV, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_long_64_nint_void, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_long_64_nint, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_long_64_oint_void, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_long_64_oint, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_long_64_olong_void, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_long_64_olong, M_ARITH, ND_MOD, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_long_64_nint_void, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_long_64_nint, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_long_64_oint_void, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_long_64_oint, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_long_64_olong_void, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_long_64_olong, M_ARITH, ND_SAR, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_long_64_nint_void, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_long_64_nint, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_long_64_oint_void, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_long_64_oint, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_long_64_olong_void, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_long_64_olong, M_ARITH, ND_BITOR, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_long_64_nint_void, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_long_64_nint, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_long_64_oint_void, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_long_64_oint, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_long_64_olong_void, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_long_64_olong, M_ARITH, ND_MUL, L_MEM, 2, 64, 0, 8, 0, 2, 0, false, true)
AS(bfp_long_64_void, M_POST, 0, L_MEM, 2, 64, 0, 8, 1, 0, 0, true, true)
AS(bfp_long_64, M_POST, 0, L_MEM, 2, 64, 0, 8, 1, 0, 0, false, true)
AS(bfr_bool_1_mem, M_READ, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, false, true)
AS(bfw_bool_1_mem_void, M_ASSIGN, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, true, true)
AS(bfw_bool_1_mem, M_ASSIGN, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, false, true)
AS(bfr_bool_1_mem_plain, M_READ, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, false, false)
AS(bfw_bool_1_mem_plain_void, M_ASSIGN, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, true, false)
AS(bfw_bool_1_mem_plain, M_ASSIGN, 0, L_MEM, 5, 1, 0, 8, 0, 5, 0, false, false)
AS(bfr_bool_1_mvar, M_READ, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, false, true)
AS(bfw_bool_1_mvar_void, M_ASSIGN, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, true, true)
AS(bfw_bool_1_mvar, M_ASSIGN, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, false, true)
AS(bfr_bool_1_mvar_plain, M_READ, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, false, false)
AS(bfw_bool_1_mvar_plain_void, M_ASSIGN, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, true, false)
AS(bfw_bool_1_mvar_plain, M_ASSIGN, 0, L_MVAR, 5, 1, 0, 8, 0, 5, 0, false, false)
AS(bfa_add_bool_1_nint_void, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_add_bool_1_nint, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_add_bool_1_oint_void, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_add_bool_1_oint, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_add_bool_1_olong_void, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_add_bool_1_olong, M_ARITH, ND_ADD, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_sub_bool_1_nint_void, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_sub_bool_1_nint, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_sub_bool_1_oint_void, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_sub_bool_1_oint, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_sub_bool_1_olong_void, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_sub_bool_1_olong, M_ARITH, ND_SUB, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_div_bool_1_nint_void, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_div_bool_1_nint, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_div_bool_1_oint_void, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_div_bool_1_oint, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_div_bool_1_olong_void, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_div_bool_1_olong, M_ARITH, ND_DIV, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mod_bool_1_nint_void, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mod_bool_1_nint, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mod_bool_1_oint_void, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mod_bool_1_oint, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mod_bool_1_olong_void, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mod_bool_1_olong, M_ARITH, ND_MOD, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_shr_bool_1_nint_void, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_shr_bool_1_nint, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_shr_bool_1_oint_void, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_shr_bool_1_oint, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_shr_bool_1_olong_void, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_shr_bool_1_olong, M_ARITH, ND_SAR, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_bitor_bool_1_nint_void, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_bitor_bool_1_nint, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_bitor_bool_1_oint_void, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_bitor_bool_1_oint, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_bitor_bool_1_olong_void, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_bitor_bool_1_olong, M_ARITH, ND_BITOR, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfa_mul_bool_1_nint_void, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfa_mul_bool_1_nint, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
AS(bfa_mul_bool_1_oint_void, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 0, 0, 0, true, true)
AS(bfa_mul_bool_1_oint, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 0, 0, 0, false, true)
AS(bfa_mul_bool_1_olong_void, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 0, 2, 0, true, true)
AS(bfa_mul_bool_1_olong, M_ARITH, ND_MUL, L_MEM, 5, 1, 0, 8, 0, 2, 0, false, true)
AS(bfp_bool_1_void, M_POST, 0, L_MEM, 5, 1, 0, 8, 1, 0, 0, true, true)
AS(bfp_bool_1, M_POST, 0, L_MEM, 5, 1, 0, 8, 1, 0, 0, false, true)
DI(dint_int_char, 0, 6, false)
DI(dint_int_int, 0, 0, false)
DI(dint_int_long, 0, 2, false)
DI(dinta_int, 0, 2, true)
DI(dint_uint_char, 1, 6, false)
DI(dint_uint_int, 1, 0, false)
DI(dint_uint_long, 1, 2, false)
DI(dinta_uint, 1, 2, true)
DI(dint_long_char, 2, 6, false)
DI(dint_long_int, 2, 0, false)
DI(dint_long_long, 2, 2, false)
DI(dinta_long, 2, 2, true)
DI(dint_ulong_char, 3, 6, false)
DI(dint_ulong_int, 3, 0, false)
DI(dint_ulong_long, 3, 2, false)
DI(dinta_ulong, 3, 2, true)
EX(exch_bool, 5, S_OPQ)
CS(cas_bool_00, 5, 0, 0)
CS(cas_bool_01, 5, 0, 1)
CS(cas_bool_02, 5, 0, 2)
CS(cas_bool_03, 5, 0, 3)
CS(cas_bool_04, 5, 0, 4)
CS(cas_bool_05, 5, 0, 5)
CS(cas_bool_06, 5, 0, 6)
CS(cas_bool_07, 5, 0, 7)
CS(cas_bool_10, 5, 1, 0)
CS(cas_bool_11, 5, 1, 1)
CS(cas_bool_12, 5, 1, 2)
CS(cas_bool_13, 5, 1, 3)
CS(cas_bool_14, 5, 1, 4)
CS(cas_bool_15, 5, 1, 5)
CS(cas_bool_16, 5, 1, 6)
CS(cas_bool_17, 5, 1, 7)
CS(cas_bool_20, 5, 2, 0)
CS(cas_bool_21, 5, 2, 1)
CS(cas_bool_22, 5, 2, 2)
CS(cas_bool_23, 5, 2, 3)
CS(cas_bool_24, 5, 2, 4)
CS(cas_bool_25, 5, 2, 5)
CS(cas_bool_26, 5, 2, 6)
CS(cas_bool_27, 5, 2, 7)
CS(cas_bool_30, 5, 3, 0)
CS(cas_bool_31, 5, 3, 1)
CS(cas_bool_32, 5, 3, 2)
CS(cas_bool_33, 5, 3, 3)
CS(cas_bool_34, 5, 3, 4)
CS(cas_bool_35, 5, 3, 5)
CS(cas_bool_36, 5, 3, 6)
CS(cas_bool_37, 5, 3, 7)
CS(cas_bool_40, 5, 4, 0)
CS(cas_bool_41, 5, 4, 1)
CS(cas_bool_42, 5, 4, 2)
CS(cas_bool_43, 5, 4, 3)
CS(cas_bool_44, 5, 4, 4)
CS(cas_bool_45, 5, 4, 5)
CS(cas_bool_46, 5, 4, 6)
CS(cas_bool_47, 5, 4, 7)
CS(cas_bool_50, 5, 5, 0)
CS(cas_bool_51, 5, 5, 1)
CS(cas_bool_52, 5, 5, 2)
CS(cas_bool_53, 5, 5, 3)
CS(cas_bool_54, 5, 5, 4)
CS(cas_bool_55, 5, 5, 5)
CS(cas_bool_56, 5, 5, 6)
CS(cas_bool_57, 5, 5, 7)
CS(cas_bool_60, 5, 6, 0)
CS(cas_bool_61, 5, 6, 1)
CS(cas_bool_62, 5, 6, 2)
CS(cas_bool_63, 5, 6, 3)
CS(cas_bool_64, 5, 6, 4)
CS(cas_bool_65, 5, 6, 5)
CS(cas_bool_66, 5, 6, 6)
CS(cas_bool_67, 5, 6, 7)
CS(cas_bool_70, 5, 7, 0)
CS(cas_bool_71, 5, 7, 1)
CS(cas_bool_72, 5, 7, 2)
CS(cas_bool_73, 5, 7, 3)
CS(cas_bool_74, 5, 7, 4)
CS(cas_bool_75, 5, 7, 5)
CS(cas_bool_76, 5, 7, 6)
CS(cas_bool_77, 5, 7, 7)
EX(exch_char, 6, S_OPQ)
CS(cas_char_00, 6, 0, 0)
CS(cas_char_01, 6, 0, 1)
CS(cas_char_02, 6, 0, 2)
CS(cas_char_03, 6, 0, 3)
CS(cas_char_04, 6, 0, 4)
CS(cas_char_05, 6, 0, 5)
CS(cas_char_06, 6, 0, 6)
CS(cas_char_07, 6, 0, 7)
CS(cas_char_10, 6, 1, 0)
CS(cas_char_11, 6, 1, 1)
CS(cas_char_12, 6, 1, 2)
CS(cas_char_13, 6, 1, 3)
CS(cas_char_14, 6, 1, 4)
CS(cas_char_15, 6, 1, 5)
CS(cas_char_16, 6, 1, 6)
CS(cas_char_17, 6, 1, 7)
CS(cas_char_20, 6, 2, 0)
CS(cas_char_21, 6, 2, 1)
CS(cas_char_22, 6, 2, 2)
CS(cas_char_23, 6, 2, 3)
CS(cas_char_24, 6, 2, 4)
CS(cas_char_25, 6, 2, 5)
CS(cas_char_26, 6, 2, 6)
CS(cas_char_27, 6, 2, 7)
CS(cas_char_30, 6, 3, 0)
CS(cas_char_31, 6, 3, 1)
CS(cas_char_32, 6, 3, 2)
CS(cas_char_33, 6, 3, 3)
CS(cas_char_34, 6, 3, 4)
CS(cas_char_35, 6, 3, 5)
CS(cas_char_36, 6, 3, 6)
CS(cas_char_37, 6, 3, 7)
CS(cas_char_40, 6, 4, 0)
CS(cas_char_41, 6, 4, 1)
CS(cas_char_42, 6, 4, 2)
CS(cas_char_43, 6, 4, 3)
CS(cas_char_44, 6, 4, 4)
CS(cas_char_45, 6, 4, 5)
CS(cas_char_46, 6, 4, 6)
CS(cas_char_47, 6, 4, 7)
CS(cas_char_50, 6, 5, 0)
CS(cas_char_51, 6, 5, 1)
CS(cas_char_52, 6, 5, 2)
CS(cas_char_53, 6, 5, 3)
CS(cas_char_54, 6, 5, 4)
CS(cas_char_55, 6, 5, 5)
CS(cas_char_56, 6, 5, 6)
CS(cas_char_57, 6, 5, 7)
CS(cas_char_60, 6, 6, 0)
CS(cas_char_61, 6, 6, 1)
CS(cas_char_62, 6, 6, 2)
CS(cas_char_63, 6, 6, 3)
CS(cas_char_64, 6, 6, 4)
CS(cas_char_65, 6, 6, 5)
CS(cas_char_66, 6, 6, 6)
CS(cas_char_67, 6, 6, 7)
CS(cas_char_70, 6, 7, 0)
CS(cas_char_71, 6, 7, 1)
CS(cas_char_72, 6, 7, 2)
CS(cas_char_73, 6, 7, 3)
CS(cas_char_74, 6, 7, 4)
CS(cas_char_75, 6, 7, 5)
CS(cas_char_76, 6, 7, 6)
CS(cas_char_77, 6, 7, 7)
EX(exch_uchar, 7, S_OPQ)
CS(cas_uchar_00, 7, 0, 0)
CS(cas_uchar_01, 7, 0, 1)
CS(cas_uchar_02, 7, 0, 2)
CS(cas_uchar_03, 7, 0, 3)
CS(cas_uchar_04, 7, 0, 4)
CS(cas_uchar_05, 7, 0, 5)
CS(cas_uchar_06, 7, 0, 6)
CS(cas_uchar_07, 7, 0, 7)
CS(cas_uchar_10, 7, 1, 0)
CS(cas_uchar_11, 7, 1, 1)
CS(cas_uchar_12, 7, 1, 2)
CS(cas_uchar_13, 7, 1, 3)
CS(cas_uchar_14, 7, 1, 4)
CS(cas_uchar_15, 7, 1, 5)
CS(cas_uchar_16, 7, 1, 6)
CS(cas_uchar_17, 7, 1, 7)
CS(cas_uchar_20, 7, 2, 0)
CS(cas_uchar_21, 7, 2, 1)
CS(cas_uchar_22, 7, 2, 2)
CS(cas_uchar_23, 7, 2, 3)
CS(cas_uchar_24, 7, 2, 4)
CS(cas_uchar_25, 7, 2, 5)
CS(cas_uchar_26, 7, 2, 6)
CS(cas_uchar_27, 7, 2, 7)
CS(cas_uchar_30, 7, 3, 0)
CS(cas_uchar_31, 7, 3, 1)
CS(cas_uchar_32, 7, 3, 2)
CS(cas_uchar_33, 7, 3, 3)
CS(cas_uchar_34, 7, 3, 4)
CS(cas_uchar_35, 7, 3, 5)
CS(cas_uchar_36, 7, 3, 6)
CS(cas_uchar_37, 7, 3, 7)
CS(cas_uchar_40, 7, 4, 0)
CS(cas_uchar_41, 7, 4, 1)
CS(cas_uchar_42, 7, 4, 2)
CS(cas_uchar_43, 7, 4, 3)
CS(cas_uchar_44, 7, 4, 4)
CS(cas_uchar_45, 7, 4, 5)
CS(cas_uchar_46, 7, 4, 6)
CS(cas_uchar_47, 7, 4, 7)
CS(cas_uchar_50, 7, 5, 0)
CS(cas_uchar_51, 7, 5, 1)
CS(cas_uchar_52, 7, 5, 2)
CS(cas_uchar_53, 7, 5, 3)
CS(cas_uchar_54, 7, 5, 4)
CS(cas_uchar_55, 7, 5, 5)
CS(cas_uchar_56, 7, 5, 6)
CS(cas_uchar_57, 7, 5, 7)
CS(cas_uchar_60, 7, 6, 0)
CS(cas_uchar_61, 7, 6, 1)
CS(cas_uchar_62, 7, 6, 2)
CS(cas_uchar_63, 7, 6, 3)
CS(cas_uchar_64, 7, 6, 4)
CS(cas_uchar_65, 7, 6, 5)
CS(cas_uchar_66, 7, 6, 6)
CS(cas_uchar_67, 7, 6, 7)
CS(cas_uchar_70, 7, 7, 0)
CS(cas_uchar_71, 7, 7, 1)
CS(cas_uchar_72, 7, 7, 2)
CS(cas_uchar_73, 7, 7, 3)
CS(cas_uchar_74, 7, 7, 4)
CS(cas_uchar_75, 7, 7, 5)
CS(cas_uchar_76, 7, 7, 6)
CS(cas_uchar_77, 7, 7, 7)
EX(exch_short, 8, S_OPQ)
CS(cas_short_00, 8, 0, 0)
CS(cas_short_01, 8, 0, 1)
CS(cas_short_02, 8, 0, 2)
CS(cas_short_03, 8, 0, 3)
CS(cas_short_04, 8, 0, 4)
CS(cas_short_05, 8, 0, 5)
CS(cas_short_06, 8, 0, 6)
CS(cas_short_07, 8, 0, 7)
CS(cas_short_10, 8, 1, 0)
CS(cas_short_11, 8, 1, 1)
CS(cas_short_12, 8, 1, 2)
CS(cas_short_13, 8, 1, 3)
CS(cas_short_14, 8, 1, 4)
CS(cas_short_15, 8, 1, 5)
CS(cas_short_16, 8, 1, 6)
CS(cas_short_17, 8, 1, 7)
CS(cas_short_20, 8, 2, 0)
CS(cas_short_21, 8, 2, 1)
CS(cas_short_22, 8, 2, 2)
CS(cas_short_23, 8, 2, 3)
CS(cas_short_24, 8, 2, 4)
CS(cas_short_25, 8, 2, 5)
CS(cas_short_26, 8, 2, 6)
CS(cas_short_27, 8, 2, 7)
CS(cas_short_30, 8, 3, 0)
CS(cas_short_31, 8, 3, 1)
CS(cas_short_32, 8, 3, 2)
CS(cas_short_33, 8, 3, 3)
CS(cas_short_34, 8, 3, 4)
CS(cas_short_35, 8, 3, 5)
CS(cas_short_36, 8, 3, 6)
CS(cas_short_37, 8, 3, 7)
CS(cas_short_40, 8, 4, 0)
CS(cas_short_41, 8, 4, 1)
CS(cas_short_42, 8, 4, 2)
CS(cas_short_43, 8, 4, 3)
CS(cas_short_44, 8, 4, 4)
CS(cas_short_45, 8, 4, 5)
CS(cas_short_46, 8, 4, 6)
CS(cas_short_47, 8, 4, 7)
CS(cas_short_50, 8, 5, 0)
CS(cas_short_51, 8, 5, 1)
CS(cas_short_52, 8, 5, 2)
CS(cas_short_53, 8, 5, 3)
CS(cas_short_54, 8, 5, 4)
CS(cas_short_55, 8, 5, 5)
CS(cas_short_56, 8, 5, 6)
CS(cas_short_57, 8, 5, 7)
CS(cas_short_60, 8, 6, 0)
CS(cas_short_61, 8, 6, 1)
CS(cas_short_62, 8, 6, 2)
CS(cas_short_63, 8, 6, 3)
CS(cas_short_64, 8, 6, 4)
CS(cas_short_65, 8, 6, 5)
CS(cas_short_66, 8, 6, 6)
CS(cas_short_67, 8, 6, 7)
CS(cas_short_70, 8, 7, 0)
CS(cas_short_71, 8, 7, 1)
CS(cas_short_72, 8, 7, 2)
CS(cas_short_73, 8, 7, 3)
CS(cas_short_74, 8, 7, 4)
CS(cas_short_75, 8, 7, 5)
CS(cas_short_76, 8, 7, 6)
CS(cas_short_77, 8, 7, 7)
EX(exch_ushort, 9, S_OPQ)
CS(cas_ushort_00, 9, 0, 0)
CS(cas_ushort_01, 9, 0, 1)
CS(cas_ushort_02, 9, 0, 2)
CS(cas_ushort_03, 9, 0, 3)
CS(cas_ushort_04, 9, 0, 4)
CS(cas_ushort_05, 9, 0, 5)
CS(cas_ushort_06, 9, 0, 6)
CS(cas_ushort_07, 9, 0, 7)
CS(cas_ushort_10, 9, 1, 0)
CS(cas_ushort_11, 9, 1, 1)
CS(cas_ushort_12, 9, 1, 2)
CS(cas_ushort_13, 9, 1, 3)
CS(cas_ushort_14, 9, 1, 4)
CS(cas_ushort_15, 9, 1, 5)
CS(cas_ushort_16, 9, 1, 6)
CS(cas_ushort_17, 9, 1, 7)
CS(cas_ushort_20, 9, 2, 0)
CS(cas_ushort_21, 9, 2, 1)
CS(cas_ushort_22, 9, 2, 2)
CS(cas_ushort_23, 9, 2, 3)
CS(cas_ushort_24, 9, 2, 4)
CS(cas_ushort_25, 9, 2, 5)
CS(cas_ushort_26, 9, 2, 6)
CS(cas_ushort_27, 9, 2, 7)
CS(cas_ushort_30, 9, 3, 0)
CS(cas_ushort_31, 9, 3, 1)
CS(cas_ushort_32, 9, 3, 2)
CS(cas_ushort_33, 9, 3, 3)
CS(cas_ushort_34, 9, 3, 4)
CS(cas_ushort_35, 9, 3, 5)
CS(cas_ushort_36, 9, 3, 6)
CS(cas_ushort_37, 9, 3, 7)
CS(cas_ushort_40, 9, 4, 0)
CS(cas_ushort_41, 9, 4, 1)
CS(cas_ushort_42, 9, 4, 2)
CS(cas_ushort_43, 9, 4, 3)
CS(cas_ushort_44, 9, 4, 4)
CS(cas_ushort_45, 9, 4, 5)
CS(cas_ushort_46, 9, 4, 6)
CS(cas_ushort_47, 9, 4, 7)
CS(cas_ushort_50, 9, 5, 0)
CS(cas_ushort_51, 9, 5, 1)
CS(cas_ushort_52, 9, 5, 2)
CS(cas_ushort_53, 9, 5, 3)
CS(cas_ushort_54, 9, 5, 4)
CS(cas_ushort_55, 9, 5, 5)
CS(cas_ushort_56, 9, 5, 6)
CS(cas_ushort_57, 9, 5, 7)
CS(cas_ushort_60, 9, 6, 0)
CS(cas_ushort_61, 9, 6, 1)
CS(cas_ushort_62, 9, 6, 2)
CS(cas_ushort_63, 9, 6, 3)
CS(cas_ushort_64, 9, 6, 4)
CS(cas_ushort_65, 9, 6, 5)
CS(cas_ushort_66, 9, 6, 6)
CS(cas_ushort_67, 9, 6, 7)
CS(cas_ushort_70, 9, 7, 0)
CS(cas_ushort_71, 9, 7, 1)
CS(cas_ushort_72, 9, 7, 2)
CS(cas_ushort_73, 9, 7, 3)
CS(cas_ushort_74, 9, 7, 4)
CS(cas_ushort_75, 9, 7, 5)
CS(cas_ushort_76, 9, 7, 6)
CS(cas_ushort_77, 9, 7, 7)
EX(exch_int, 0, S_OPQ)
CS(cas_int_00, 0, 0, 0)
CS(cas_int_01, 0, 0, 1)
CS(cas_int_02, 0, 0, 2)
CS(cas_int_03, 0, 0, 3)
CS(cas_int_04, 0, 0, 4)
CS(cas_int_05, 0, 0, 5)
CS(cas_int_06, 0, 0, 6)
CS(cas_int_07, 0, 0, 7)
CS(cas_int_10, 0, 1, 0)
CS(cas_int_11, 0, 1, 1)
CS(cas_int_12, 0, 1, 2)
CS(cas_int_13, 0, 1, 3)
CS(cas_int_14, 0, 1, 4)
CS(cas_int_15, 0, 1, 5)
CS(cas_int_16, 0, 1, 6)
CS(cas_int_17, 0, 1, 7)
CS(cas_int_20, 0, 2, 0)
CS(cas_int_21, 0, 2, 1)
CS(cas_int_22, 0, 2, 2)
CS(cas_int_23, 0, 2, 3)
CS(cas_int_24, 0, 2, 4)
CS(cas_int_25, 0, 2, 5)
CS(cas_int_26, 0, 2, 6)
CS(cas_int_27, 0, 2, 7)
CS(cas_int_30, 0, 3, 0)
CS(cas_int_31, 0, 3, 1)
CS(cas_int_32, 0, 3, 2)
CS(cas_int_33, 0, 3, 3)
CS(cas_int_34, 0, 3, 4)
CS(cas_int_35, 0, 3, 5)
CS(cas_int_36, 0, 3, 6)
CS(cas_int_37, 0, 3, 7)
CS(cas_int_40, 0, 4, 0)
CS(cas_int_41, 0, 4, 1)
CS(cas_int_42, 0, 4, 2)
CS(cas_int_43, 0, 4, 3)
CS(cas_int_44, 0, 4, 4)
CS(cas_int_45, 0, 4, 5)
CS(cas_int_46, 0, 4, 6)
CS(cas_int_47, 0, 4, 7)
CS(cas_int_50, 0, 5, 0)
CS(cas_int_51, 0, 5, 1)
CS(cas_int_52, 0, 5, 2)
CS(cas_int_53, 0, 5, 3)
CS(cas_int_54, 0, 5, 4)
CS(cas_int_55, 0, 5, 5)
CS(cas_int_56, 0, 5, 6)
CS(cas_int_57, 0, 5, 7)
CS(cas_int_60, 0, 6, 0)
CS(cas_int_61, 0, 6, 1)
CS(cas_int_62, 0, 6, 2)
CS(cas_int_63, 0, 6, 3)
CS(cas_int_64, 0, 6, 4)
CS(cas_int_65, 0, 6, 5)
CS(cas_int_66, 0, 6, 6)
CS(cas_int_67, 0, 6, 7)
CS(cas_int_70, 0, 7, 0)
CS(cas_int_71, 0, 7, 1)
CS(cas_int_72, 0, 7, 2)
CS(cas_int_73, 0, 7, 3)
CS(cas_int_74, 0, 7, 4)
CS(cas_int_75, 0, 7, 5)
CS(cas_int_76, 0, 7, 6)
CS(cas_int_77, 0, 7, 7)
EX(exch_uint, 1, S_OPQ)
CS(cas_uint_00, 1, 0, 0)
CS(cas_uint_01, 1, 0, 1)
CS(cas_uint_02, 1, 0, 2)
CS(cas_uint_03, 1, 0, 3)
CS(cas_uint_04, 1, 0, 4)
CS(cas_uint_05, 1, 0, 5)
CS(cas_uint_06, 1, 0, 6)
CS(cas_uint_07, 1, 0, 7)
CS(cas_uint_10, 1, 1, 0)
CS(cas_uint_11, 1, 1, 1)
CS(cas_uint_12, 1, 1, 2)
CS(cas_uint_13, 1, 1, 3)
CS(cas_uint_14, 1, 1, 4)
CS(cas_uint_15, 1, 1, 5)
CS(cas_uint_16, 1, 1, 6)
CS(cas_uint_17, 1, 1, 7)
CS(cas_uint_20, 1, 2, 0)
CS(cas_uint_21, 1, 2, 1)
CS(cas_uint_22, 1, 2, 2)
CS(cas_uint_23, 1, 2, 3)
CS(cas_uint_24, 1, 2, 4)
CS(cas_uint_25, 1, 2, 5)
CS(cas_uint_26, 1, 2, 6)
CS(cas_uint_27, 1, 2, 7)
CS(cas_uint_30, 1, 3, 0)
CS(cas_uint_31, 1, 3, 1)
CS(cas_uint_32, 1, 3, 2)
CS(cas_uint_33, 1, 3, 3)
CS(cas_uint_34, 1, 3, 4)
CS(cas_uint_35, 1, 3, 5)
CS(cas_uint_36, 1, 3, 6)
CS(cas_uint_37, 1, 3, 7)
CS(cas_uint_40, 1, 4, 0)
CS(cas_uint_41, 1, 4, 1)
CS(cas_uint_42, 1, 4, 2)
CS(cas_uint_43, 1, 4, 3)
CS(cas_uint_44, 1, 4, 4)
CS(cas_uint_45, 1, 4, 5)
CS(cas_uint_46, 1, 4, 6)
CS(cas_uint_47, 1, 4, 7)
CS(cas_uint_50, 1, 5, 0)
CS(cas_uint_51, 1, 5, 1)
CS(cas_uint_52, 1, 5, 2)
CS(cas_uint_53, 1, 5, 3)
CS(cas_uint_54, 1, 5, 4)
CS(cas_uint_55, 1, 5, 5)
CS(cas_uint_56, 1, 5, 6)
CS(cas_uint_57, 1, 5, 7)
CS(cas_uint_60, 1, 6, 0)
CS(cas_uint_61, 1, 6, 1)
CS(cas_uint_62, 1, 6, 2)
CS(cas_uint_63, 1, 6, 3)
CS(cas_uint_64, 1, 6, 4)
CS(cas_uint_65, 1, 6, 5)
CS(cas_uint_66, 1, 6, 6)
CS(cas_uint_67, 1, 6, 7)
CS(cas_uint_70, 1, 7, 0)
CS(cas_uint_71, 1, 7, 1)
CS(cas_uint_72, 1, 7, 2)
CS(cas_uint_73, 1, 7, 3)
CS(cas_uint_74, 1, 7, 4)
CS(cas_uint_75, 1, 7, 5)
CS(cas_uint_76, 1, 7, 6)
CS(cas_uint_77, 1, 7, 7)
EX(exch_long, 2, S_OPQ)
CS(cas_long_00, 2, 0, 0)
CS(cas_long_01, 2, 0, 1)
CS(cas_long_02, 2, 0, 2)
CS(cas_long_03, 2, 0, 3)
CS(cas_long_04, 2, 0, 4)
CS(cas_long_05, 2, 0, 5)
CS(cas_long_06, 2, 0, 6)
CS(cas_long_07, 2, 0, 7)
CS(cas_long_10, 2, 1, 0)
CS(cas_long_11, 2, 1, 1)
CS(cas_long_12, 2, 1, 2)
CS(cas_long_13, 2, 1, 3)
CS(cas_long_14, 2, 1, 4)
CS(cas_long_15, 2, 1, 5)
CS(cas_long_16, 2, 1, 6)
CS(cas_long_17, 2, 1, 7)
CS(cas_long_20, 2, 2, 0)
CS(cas_long_21, 2, 2, 1)
CS(cas_long_22, 2, 2, 2)
CS(cas_long_23, 2, 2, 3)
CS(cas_long_24, 2, 2, 4)
CS(cas_long_25, 2, 2, 5)
CS(cas_long_26, 2, 2, 6)
CS(cas_long_27, 2, 2, 7)
CS(cas_long_30, 2, 3, 0)
CS(cas_long_31, 2, 3, 1)
CS(cas_long_32, 2, 3, 2)
CS(cas_long_33, 2, 3, 3)
CS(cas_long_34, 2, 3, 4)
CS(cas_long_35, 2, 3, 5)
CS(cas_long_36, 2, 3, 6)
CS(cas_long_37, 2, 3, 7)
CS(cas_long_40, 2, 4, 0)
CS(cas_long_41, 2, 4, 1)
CS(cas_long_42, 2, 4, 2)
CS(cas_long_43, 2, 4, 3)
CS(cas_long_44, 2, 4, 4)
CS(cas_long_45, 2, 4, 5)
CS(cas_long_46, 2, 4, 6)
CS(cas_long_47, 2, 4, 7)
CS(cas_long_50, 2, 5, 0)
CS(cas_long_51, 2, 5, 1)
CS(cas_long_52, 2, 5, 2)
CS(cas_long_53, 2, 5, 3)
CS(cas_long_54, 2, 5, 4)
CS(cas_long_55, 2, 5, 5)
CS(cas_long_56, 2, 5, 6)
CS(cas_long_57, 2, 5, 7)
CS(cas_long_60, 2, 6, 0)
CS(cas_long_61, 2, 6, 1)
CS(cas_long_62, 2, 6, 2)
CS(cas_long_63, 2, 6, 3)
CS(cas_long_64, 2, 6, 4)
CS(cas_long_65, 2, 6, 5)
CS(cas_long_66, 2, 6, 6)
CS(cas_long_67, 2, 6, 7)
CS(cas_long_70, 2, 7, 0)
CS(cas_long_71, 2, 7, 1)
CS(cas_long_72, 2, 7, 2)
CS(cas_long_73, 2, 7, 3)
CS(cas_long_74, 2, 7, 4)
CS(cas_long_75, 2, 7, 5)
CS(cas_long_76, 2, 7, 6)
CS(cas_long_77, 2, 7, 7)
EX(exch_ulong, 3, S_OPQ)
CS(cas_ulong_00, 3, 0, 0)
CS(cas_ulong_01, 3, 0, 1)
CS(cas_ulong_02, 3, 0, 2)
CS(cas_ulong_03, 3, 0, 3)
CS(cas_ulong_04, 3, 0, 4)
CS(cas_ulong_05, 3, 0, 5)
CS(cas_ulong_06, 3, 0, 6)
CS(cas_ulong_07, 3, 0, 7)
CS(cas_ulong_10, 3, 1, 0)
CS(cas_ulong_11, 3, 1, 1)
CS(cas_ulong_12, 3, 1, 2)
CS(cas_ulong_13, 3, 1, 3)
CS(cas_ulong_14, 3, 1, 4)
CS(cas_ulong_15, 3, 1, 5)
CS(cas_ulong_16, 3, 1, 6)
CS(cas_ulong_17, 3, 1, 7)
CS(cas_ulong_20, 3, 2, 0)
CS(cas_ulong_21, 3, 2, 1)
CS(cas_ulong_22, 3, 2, 2)
CS(cas_ulong_23, 3, 2, 3)
CS(cas_ulong_24, 3, 2, 4)
CS(cas_ulong_25, 3, 2, 5)
CS(cas_ulong_26, 3, 2, 6)
CS(cas_ulong_27, 3, 2, 7)
CS(cas_ulong_30, 3, 3, 0)
CS(cas_ulong_31, 3, 3, 1)
CS(cas_ulong_32, 3, 3, 2)
CS(cas_ulong_33, 3, 3, 3)
CS(cas_ulong_34, 3, 3, 4)
CS(cas_ulong_35, 3, 3, 5)
CS(cas_ulong_36, 3, 3, 6)
CS(cas_ulong_37, 3, 3, 7)
CS(cas_ulong_40, 3, 4, 0)
CS(cas_ulong_41, 3, 4, 1)
CS(cas_ulong_42, 3, 4, 2)
CS(cas_ulong_43, 3, 4, 3)
CS(cas_ulong_44, 3, 4, 4)
CS(cas_ulong_45, 3, 4, 5)
CS(cas_ulong_46, 3, 4, 6)
CS(cas_ulong_47, 3, 4, 7)
CS(cas_ulong_50, 3, 5, 0)
CS(cas_ulong_51, 3, 5, 1)
CS(cas_ulong_52, 3, 5, 2)
CS(cas_ulong_53, 3, 5, 3)
CS(cas_ulong_54, 3, 5, 4)
CS(cas_ulong_55, 3, 5, 5)
CS(cas_ulong_56, 3, 5, 6)
CS(cas_ulong_57, 3, 5, 7)
CS(cas_ulong_60, 3, 6, 0)
CS(cas_ulong_61, 3, 6, 1)
CS(cas_ulong_62, 3, 6, 2)
CS(cas_ulong_63, 3, 6, 3)
CS(cas_ulong_64, 3, 6, 4)
CS(cas_ulong_65, 3, 6, 5)
CS(cas_ulong_66, 3, 6, 6)
CS(cas_ulong_67, 3, 6, 7)
CS(cas_ulong_70, 3, 7, 0)
CS(cas_ulong_71, 3, 7, 1)
CS(cas_ulong_72, 3, 7, 2)
CS(cas_ulong_73, 3, 7, 3)
CS(cas_ulong_74, 3, 7, 4)
CS(cas_ulong_75, 3, 7, 5)
CS(cas_ulong_76, 3, 7, 6)
CS(cas_ulong_77, 3, 7, 7)
EX(exch_ptr, 4, S_OPQ)
CS(cas_ptr_00, 4, 0, 0)
CS(cas_ptr_01, 4, 0, 1)
CS(cas_ptr_02, 4, 0, 2)
CS(cas_ptr_03, 4, 0, 3)
CS(cas_ptr_04, 4, 0, 4)
CS(cas_ptr_05, 4, 0, 5)
CS(cas_ptr_06, 4, 0, 6)
CS(cas_ptr_07, 4, 0, 7)
CS(cas_ptr_10, 4, 1, 0)
CS(cas_ptr_11, 4, 1, 1)
CS(cas_ptr_12, 4, 1, 2)
CS(cas_ptr_13, 4, 1, 3)
CS(cas_ptr_14, 4, 1, 4)
CS(cas_ptr_15, 4, 1, 5)
CS(cas_ptr_16, 4, 1, 6)
CS(cas_ptr_17, 4, 1, 7)
CS(cas_ptr_20, 4, 2, 0)
CS(cas_ptr_21, 4, 2, 1)
CS(cas_ptr_22, 4, 2, 2)
CS(cas_ptr_23, 4, 2, 3)
CS(cas_ptr_24, 4, 2, 4)
CS(cas_ptr_25, 4, 2, 5)
CS(cas_ptr_26, 4, 2, 6)
CS(cas_ptr_27, 4, 2, 7)
CS(cas_ptr_30, 4, 3, 0)
CS(cas_ptr_31, 4, 3, 1)
CS(cas_ptr_32, 4, 3, 2)
CS(cas_ptr_33, 4, 3, 3)
CS(cas_ptr_34, 4, 3, 4)
CS(cas_ptr_35, 4, 3, 5)
CS(cas_ptr_36, 4, 3, 6)
CS(cas_ptr_37, 4, 3, 7)
CS(cas_ptr_40, 4, 4, 0)
CS(cas_ptr_41, 4, 4, 1)
CS(cas_ptr_42, 4, 4, 2)
CS(cas_ptr_43, 4, 4, 3)
CS(cas_ptr_44, 4, 4, 4)
CS(cas_ptr_45, 4, 4, 5)
CS(cas_ptr_46, 4, 4, 6)
CS(cas_ptr_47, 4, 4, 7)
CS(cas_ptr_50, 4, 5, 0)
CS(cas_ptr_51, 4, 5, 1)
CS(cas_ptr_52, 4, 5, 2)
CS(cas_ptr_53, 4, 5, 3)
CS(cas_ptr_54, 4, 5, 4)
CS(cas_ptr_55, 4, 5, 5)
CS(cas_ptr_56, 4, 5, 6)
CS(cas_ptr_57, 4, 5, 7)
CS(cas_ptr_60, 4, 6, 0)
CS(cas_ptr_61, 4, 6, 1)
CS(cas_ptr_62, 4, 6, 2)
CS(cas_ptr_63, 4, 6, 3)
CS(cas_ptr_64, 4, 6, 4)
CS(cas_ptr_65, 4, 6, 5)
CS(cas_ptr_66, 4, 6, 6)
CS(cas_ptr_67, 4, 6, 7)
CS(cas_ptr_70, 4, 7, 0)
CS(cas_ptr_71, 4, 7, 1)
CS(cas_ptr_72, 4, 7, 2)
CS(cas_ptr_73, 4, 7, 3)
CS(cas_ptr_74, 4, 7, 4)
CS(cas_ptr_75, 4, 7, 5)
CS(cas_ptr_76, 4, 7, 6)
CS(cas_ptr_77, 4, 7, 7)
