// generated: packed keys of mnemonics and registers
#define M_mov 0x6d6f76ull
#define M_movb 0x6d6f7662ull
#define M_movw 0x6d6f7677ull
#define M_movl 0x6d6f766cull
#define M_movq 0x6d6f7671ull
#define M_movabsq 0x6d6f7661627371ull
#define M_movzbl 0x6d6f767a626cull
#define M_movzwl 0x6d6f767a776cull
#define M_movsbl 0x6d6f7673626cull
#define M_movswl 0x6d6f7673776cull
#define M_movslq 0x6d6f76736c71ull
#define M_movsbq 0x6d6f76736271ull
#define M_movswq 0x6d6f76737771ull
#define M_movzbq 0x6d6f767a6271ull
#define M_movzwq 0x6d6f767a7771ull
#define M_lea 0x6c6561ull
#define M_leaq 0x6c656171ull
#define M_add 0x616464ull
#define M_sub 0x737562ull
#define M_imul 0x696d756cull
#define M_and 0x616e64ull
#define M_or 0x6f72ull
#define M_xor 0x786f72ull
#define M_shl 0x73686cull
#define M_shr 0x736872ull
#define M_sar 0x736172ull
#define M_neg 0x6e6567ull
#define M_not 0x6e6f74ull
#define M_inc 0x696e63ull
#define M_dec 0x646563ull
#define M_cmp 0x636d70ull
#define M_test 0x74657374ull
#define M_addb 0x61646462ull
#define M_addw 0x61646477ull
#define M_addl 0x6164646cull
#define M_addq 0x61646471ull
#define M_subb 0x73756262ull
#define M_subw 0x73756277ull
#define M_subl 0x7375626cull
#define M_subq 0x73756271ull
#define M_andb 0x616e6462ull
#define M_andw 0x616e6477ull
#define M_andl 0x616e646cull
#define M_andq 0x616e6471ull
#define M_orb 0x6f7262ull
#define M_orw 0x6f7277ull
#define M_orl 0x6f726cull
#define M_orq 0x6f7271ull
#define M_xorb 0x786f7262ull
#define M_xorw 0x786f7277ull
#define M_xorl 0x786f726cull
#define M_xorq 0x786f7271ull
#define M_cmpb 0x636d7062ull
#define M_cmpw 0x636d7077ull
#define M_cmpl 0x636d706cull
#define M_cmpq 0x636d7071ull
#define M_testb 0x7465737462ull
#define M_testl 0x746573746cull
#define M_testq 0x7465737471ull
#define M_incl 0x696e636cull
#define M_incq 0x696e6371ull
#define M_decl 0x6465636cull
#define M_decq 0x64656371ull
#define M_shlq 0x73686c71ull
#define M_shrq 0x73687271ull
#define M_sarq 0x73617271ull
#define M_shll 0x73686c6cull
#define M_shrl 0x7368726cull
#define M_sarl 0x7361726cull
#define M_negl 0x6e65676cull
#define M_negq 0x6e656771ull
#define M_notl 0x6e6f746cull
#define M_notq 0x6e6f7471ull
#define M_imull 0x696d756c6cull
#define M_imulq 0x696d756c71ull
#define M_sete 0x73657465ull
#define M_setne 0x7365746e65ull
#define M_setb 0x73657462ull
#define M_setbe 0x7365746265ull
#define M_seta 0x73657461ull
#define M_setae 0x7365746165ull
#define M_setl 0x7365746cull
#define M_setle 0x7365746c65ull
#define M_setg 0x73657467ull
#define M_setge 0x7365746765ull
#define M_sets 0x73657473ull
#define M_setns 0x7365746e73ull
#define M_setp 0x73657470ull
#define M_setnp 0x7365746e70ull
#define M_je 0x6a65ull
#define M_jne 0x6a6e65ull
#define M_jb 0x6a62ull
#define M_jbe 0x6a6265ull
#define M_ja 0x6a61ull
#define M_jae 0x6a6165ull
#define M_jl 0x6a6cull
#define M_jle 0x6a6c65ull
#define M_jg 0x6a67ull
#define M_jge 0x6a6765ull
#define M_js 0x6a73ull
#define M_jns 0x6a6e73ull
#define M_jmp 0x6a6d70ull
#define M_cmove 0x636d6f7665ull
#define M_cmovne 0x636d6f766e65ull
#define M_cqo 0x63716full
#define M_cdq 0x636471ull
#define M_cqto 0x6371746full
#define M_cltd 0x636c7464ull
#define M_div 0x646976ull
#define M_idiv 0x69646976ull
#define M_divl 0x6469766cull
#define M_divq 0x64697671ull
#define M_idivl 0x696469766cull
#define M_idivq 0x6964697671ull
#define M_xchg 0x78636867ull
#define M_push 0x70757368ull
#define M_pop 0x706f70ull
#define M_call 0x63616c6cull
#define M_ret 0x726574ull
#define M_lock 0x6c6f636bull
#define M_cmpxchg 0x636d7078636867ull
#define M_movss 0x6d6f767373ull
#define M_movsd 0x6d6f767364ull
#define M_movaps 0x6d6f76617073ull
#define M_movups 0x6d6f76757073ull
#define M_movd 0x6d6f7664ull
#define M_xorps 0x786f727073ull
#define M_xorpd 0x786f727064ull
#define M_pxor 0x70786f72ull
#define M_fninit 0x666e696e6974ull
#define M_cvtsi2ssl 0x590061d50bbe8f73ull
#define M_cvtsi2ssq 0x590061d50bbe8f6eull
#define M_cvtsi2sdl 0x590061d50bbe9873ull
#define M_cvtsi2sdq 0x590061d50bbe986eull
#define M_cvttss2sil 0x12f9e37bf6a5521ull
#define M_cvttss2siq 0x12f9e37bf6a553cull
#define M_cvttsd2sil 0x12f9e20bf6a5521ull
#define M_cvttsd2siq 0x12f9e20bf6a553cull
#define M_cvtss2sd 0x6376747373327364ull
#define M_cvtsd2ss 0x6376747364327373ull
#define M_cvtsi2ss 0x6376747369327373ull
#define M_cvtsi2sd 0x6376747369327364ull
#define M_addss 0x6164647373ull
#define M_addsd 0x6164647364ull
#define M_subss 0x7375627373ull
#define M_subsd 0x7375627364ull
#define M_mulss 0x6d756c7373ull
#define M_mulsd 0x6d756c7364ull
#define M_divss 0x6469767373ull
#define M_divsd 0x6469767364ull
#define M_ucomiss 0x75636f6d697373ull
#define M_ucomisd 0x75636f6d697364ull
static int vf_regkey(uint64_t h, int *sz) {
  switch (h) {
  case 0x726178ull: *sz = 8; return 0; // rax
  case 0x656178ull: *sz = 4; return 0; // eax
  case 0x6178ull: *sz = 2; return 0; // ax
  case 0x616cull: *sz = 1; return 0; // al
  case 0x726378ull: *sz = 8; return 1; // rcx
  case 0x656378ull: *sz = 4; return 1; // ecx
  case 0x6378ull: *sz = 2; return 1; // cx
  case 0x636cull: *sz = 1; return 1; // cl
  case 0x726478ull: *sz = 8; return 2; // rdx
  case 0x656478ull: *sz = 4; return 2; // edx
  case 0x6478ull: *sz = 2; return 2; // dx
  case 0x646cull: *sz = 1; return 2; // dl
  case 0x726278ull: *sz = 8; return 3; // rbx
  case 0x656278ull: *sz = 4; return 3; // ebx
  case 0x6278ull: *sz = 2; return 3; // bx
  case 0x626cull: *sz = 1; return 3; // bl
  case 0x727370ull: *sz = 8; return 4; // rsp
  case 0x657370ull: *sz = 4; return 4; // esp
  case 0x7370ull: *sz = 2; return 4; // sp
  case 0x73706cull: *sz = 1; return 4; // spl
  case 0x726270ull: *sz = 8; return 5; // rbp
  case 0x656270ull: *sz = 4; return 5; // ebp
  case 0x6270ull: *sz = 2; return 5; // bp
  case 0x62706cull: *sz = 1; return 5; // bpl
  case 0x727369ull: *sz = 8; return 6; // rsi
  case 0x657369ull: *sz = 4; return 6; // esi
  case 0x7369ull: *sz = 2; return 6; // si
  case 0x73696cull: *sz = 1; return 6; // sil
  case 0x726469ull: *sz = 8; return 7; // rdi
  case 0x656469ull: *sz = 4; return 7; // edi
  case 0x6469ull: *sz = 2; return 7; // di
  case 0x64696cull: *sz = 1; return 7; // dil
  case 0x7238ull: *sz = 8; return 8; // r8
  case 0x723864ull: *sz = 4; return 8; // r8d
  case 0x723877ull: *sz = 2; return 8; // r8w
  case 0x723862ull: *sz = 1; return 8; // r8b
  case 0x7239ull: *sz = 8; return 9; // r9
  case 0x723964ull: *sz = 4; return 9; // r9d
  case 0x723977ull: *sz = 2; return 9; // r9w
  case 0x723962ull: *sz = 1; return 9; // r9b
  case 0x723130ull: *sz = 8; return 10; // r10
  case 0x72313064ull: *sz = 4; return 10; // r10d
  case 0x72313077ull: *sz = 2; return 10; // r10w
  case 0x72313062ull: *sz = 1; return 10; // r10b
  case 0x723131ull: *sz = 8; return 11; // r11
  case 0x72313164ull: *sz = 4; return 11; // r11d
  case 0x72313177ull: *sz = 2; return 11; // r11w
  case 0x72313162ull: *sz = 1; return 11; // r11b
  case 0x723132ull: *sz = 8; return 12; // r12
  case 0x72313264ull: *sz = 4; return 12; // r12d
  case 0x72313277ull: *sz = 2; return 12; // r12w
  case 0x72313262ull: *sz = 1; return 12; // r12b
  case 0x723133ull: *sz = 8; return 13; // r13
  case 0x72313364ull: *sz = 4; return 13; // r13d
  case 0x72313377ull: *sz = 2; return 13; // r13w
  case 0x72313362ull: *sz = 1; return 13; // r13b
  case 0x723134ull: *sz = 8; return 14; // r14
  case 0x72313464ull: *sz = 4; return 14; // r14d
  case 0x72313477ull: *sz = 2; return 14; // r14w
  case 0x72313462ull: *sz = 1; return 14; // r14b
  case 0x723135ull: *sz = 8; return 15; // r15
  case 0x72313564ull: *sz = 4; return 15; // r15d
  case 0x72313577ull: *sz = 2; return 15; // r15w
  case 0x72313562ull: *sz = 1; return 15; // r15b
  case 0x786d6d30ull: *sz = 16; return 32; // xmm0
  case 0x786d6d31ull: *sz = 16; return 33; // xmm1
  case 0x786d6d32ull: *sz = 16; return 34; // xmm2
  case 0x786d6d33ull: *sz = 16; return 35; // xmm3
  case 0x786d6d34ull: *sz = 16; return 36; // xmm4
  case 0x786d6d35ull: *sz = 16; return 37; // xmm5
  case 0x786d6d36ull: *sz = 16; return 38; // xmm6
  case 0x786d6d37ull: *sz = 16; return 39; // xmm7
  case 0x786d6d38ull: *sz = 16; return 40; // xmm8
  case 0x786d6d39ull: *sz = 16; return 41; // xmm9
  case 0x786d6d3130ull: *sz = 16; return 42; // xmm10
  case 0x786d6d3131ull: *sz = 16; return 43; // xmm11
  case 0x786d6d3132ull: *sz = 16; return 44; // xmm12
  case 0x786d6d3133ull: *sz = 16; return 45; // xmm13
  case 0x786d6d3134ull: *sz = 16; return 46; // xmm14
  case 0x786d6d3135ull: *sz = 16; return 47; // xmm15
  case 0x726970ull: *sz = 8; return 16; // rip
  case 0x6168ull: *sz = -1; return 0; // ah
  }
  return -1;
}
