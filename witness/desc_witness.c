/* GENERATED by gen/desc_witness.py: declares types through every declaration macro of
   metaresc.h, so that the descriptors the macros produce can be compared with the layout
   in the debug information.  It is compiled to IR and never linked or run. */
#include <mr_config.h>
#include <complex.h>
#include <metaresc.h>

TYPEDEF_STRUCT (dw_plain_t, 
	(char, p_c),
	(bool, p_b),
	(signed char, p_sc),
	(unsigned char, p_uc),
	(short, p_h),
	(unsigned short, p_uh),
	(int, p_i),
	(unsigned int, p_ui),
	(long, p_l),
	(unsigned long, p_ul),
	(long long, p_ll),
	(unsigned long long, p_ull),
	(int8_t, p_i8),
	(uint8_t, p_u8),
	(int16_t, p_i16),
	(uint16_t, p_u16),
	(int32_t, p_i32),
	(uint32_t, p_u32),
	(int64_t, p_i64),
	(uint64_t, p_u64),
	(size_t, p_sz),
	(ssize_t, p_ssz),
	(mr_int128_t, p_i128),
	(mr_uint128_t, p_u128),
	(float, p_f),
	(double, p_d),
	(long double, p_ld),
	(complex float, p_cf),
	(complex double, p_cd),
	(complex long double, p_cld),
	(long_double_t, p_ldt),
	(string_t, p_s),
	)

TYPEDEF_STRUCT (dw_note_t, ATTRIBUTES (, "meta of dw_note_t"),
	(char, n_c, , "meta of n_c"),
	(bool, n_b, , "meta of n_b"),
	(signed char, n_sc, , "meta of n_sc"),
	(unsigned char, n_uc, , "meta of n_uc"),
	(short, n_h, , "meta of n_h"),
	(unsigned short, n_uh, , "meta of n_uh"),
	(int, n_i, , "meta of n_i"),
	(unsigned int, n_ui, , "meta of n_ui"),
	(long, n_l, , "meta of n_l"),
	(unsigned long, n_ul, , "meta of n_ul"),
	(long long, n_ll, , "meta of n_ll"),
	(unsigned long long, n_ull, , "meta of n_ull"),
	(int8_t, n_i8, , "meta of n_i8"),
	(uint8_t, n_u8, , "meta of n_u8"),
	(int16_t, n_i16, , "meta of n_i16"),
	(uint16_t, n_u16, , "meta of n_u16"),
	(int32_t, n_i32, , "meta of n_i32"),
	(uint32_t, n_u32, , "meta of n_u32"),
	(int64_t, n_i64, , "meta of n_i64"),
	(uint64_t, n_u64, , "meta of n_u64"),
	(size_t, n_sz, , "meta of n_sz"),
	(ssize_t, n_ssz, , "meta of n_ssz"),
	(mr_int128_t, n_i128, , "meta of n_i128"),
	(mr_uint128_t, n_u128, , "meta of n_u128"),
	(float, n_f, , "meta of n_f"),
	(double, n_d, , "meta of n_d"),
	(long double, n_ld, , "meta of n_ld"),
	(complex float, n_cf, , "meta of n_cf"),
	(complex double, n_cd, , "meta of n_cd"),
	(complex long double, n_cld, , "meta of n_cld"),
	(long_double_t, n_ldt, , "meta of n_ldt"),
	(string_t, n_s, , "meta of n_s"),
	)

TYPEDEF_STRUCT (dw_res_t, ATTRIBUTES (, "meta of dw_res_t", { "res of dw_res_t" }, "string", 40),
	(char, r_c, , "meta of r_c", { "res of r_c" }, "string", 24),
	(bool, r_b, , "meta of r_b", { "res of r_b" }, "string"),
	(signed char, r_sc, , "meta of r_sc", { "res of r_sc" }, "string", 24),
	(unsigned char, r_uc, , "meta of r_uc", { "res of r_uc" }, "string"),
	(short, r_h, , "meta of r_h", { "res of r_h" }, "string", 24),
	(unsigned short, r_uh, , "meta of r_uh", { "res of r_uh" }, "string"),
	(int, r_i, , "meta of r_i", { "res of r_i" }, "string", 24),
	(unsigned int, r_ui, , "meta of r_ui", { "res of r_ui" }, "string"),
	(long, r_l, , "meta of r_l", { "res of r_l" }, "string", 24),
	(unsigned long, r_ul, , "meta of r_ul", { "res of r_ul" }, "string"),
	(long long, r_ll, , "meta of r_ll", { "res of r_ll" }, "string", 24),
	(unsigned long long, r_ull, , "meta of r_ull", { "res of r_ull" }, "string"),
	(int8_t, r_i8, , "meta of r_i8", { "res of r_i8" }, "string", 24),
	(uint8_t, r_u8, , "meta of r_u8", { "res of r_u8" }, "string"),
	(int16_t, r_i16, , "meta of r_i16", { "res of r_i16" }, "string", 24),
	(uint16_t, r_u16, , "meta of r_u16", { "res of r_u16" }, "string"),
	(int32_t, r_i32, , "meta of r_i32", { "res of r_i32" }, "string", 24),
	(uint32_t, r_u32, , "meta of r_u32", { "res of r_u32" }, "string"),
	(int64_t, r_i64, , "meta of r_i64", { "res of r_i64" }, "string", 24),
	(uint64_t, r_u64, , "meta of r_u64", { "res of r_u64" }, "string"),
	(size_t, r_sz, , "meta of r_sz", { "res of r_sz" }, "string", 24),
	(ssize_t, r_ssz, , "meta of r_ssz", { "res of r_ssz" }, "string"),
	(mr_int128_t, r_i128, , "meta of r_i128", { "res of r_i128" }, "string", 24),
	(mr_uint128_t, r_u128, , "meta of r_u128", { "res of r_u128" }, "string"),
	(float, r_f, , "meta of r_f", { "res of r_f" }, "string", 24),
	(double, r_d, , "meta of r_d", { "res of r_d" }, "string"),
	(long double, r_ld, , "meta of r_ld", { "res of r_ld" }, "string", 24),
	(complex float, r_cf, , "meta of r_cf", { "res of r_cf" }, "string"),
	(complex double, r_cd, , "meta of r_cd", { "res of r_cd" }, "string", 24),
	(complex long double, r_cld, , "meta of r_cld", { "res of r_cld" }, "string"),
	(long_double_t, r_ldt, , "meta of r_ldt", { "res of r_ldt" }, "string", 24),
	(string_t, r_s, , "meta of r_s", { "res of r_s" }, "string"),
	)

TYPEDEF_STRUCT (dw_const_t, 
	(const char, q_cc),
	(volatile char, q_cv),
	(const bool, q_bc),
	(volatile bool, q_bv),
	(const signed char, q_scc),
	(volatile signed char, q_scv),
	(const unsigned char, q_ucc),
	(volatile unsigned char, q_ucv),
	(const short, q_hc),
	(volatile short, q_hv),
	(const unsigned short, q_uhc),
	(volatile unsigned short, q_uhv),
	(const int, q_ic),
	(volatile int, q_iv),
	(const unsigned int, q_uic),
	(volatile unsigned int, q_uiv),
	(const long, q_lc),
	(volatile long, q_lv),
	(const unsigned long, q_ulc),
	(volatile unsigned long, q_ulv),
	(const long long, q_llc),
	(volatile long long, q_llv),
	(const unsigned long long, q_ullc),
	(volatile unsigned long long, q_ullv),
	(const int8_t, q_i8c),
	(volatile int8_t, q_i8v),
	(const uint8_t, q_u8c),
	(volatile uint8_t, q_u8v),
	(const int16_t, q_i16c),
	(volatile int16_t, q_i16v),
	(const uint16_t, q_u16c),
	(volatile uint16_t, q_u16v),
	(const int32_t, q_i32c),
	(volatile int32_t, q_i32v),
	(const uint32_t, q_u32c),
	(volatile uint32_t, q_u32v),
	(const int64_t, q_i64c),
	(volatile int64_t, q_i64v),
	(const uint64_t, q_u64c),
	(volatile uint64_t, q_u64v),
	(const size_t, q_szc),
	(volatile size_t, q_szv),
	(const ssize_t, q_sszc),
	(volatile ssize_t, q_sszv),
	(const mr_int128_t, q_i128c),
	(volatile mr_int128_t, q_i128v),
	(const mr_uint128_t, q_u128c),
	(volatile mr_uint128_t, q_u128v),
	(const float, q_fc),
	(volatile float, q_fv),
	(const double, q_dc),
	(volatile double, q_dv),
	(const long double, q_ldc),
	(volatile long double, q_ldv),
	(const complex float, q_cfc),
	(volatile complex float, q_cfv),
	(const complex double, q_cdc),
	(volatile complex double, q_cdv),
	(const complex long double, q_cldc),
	(volatile complex long double, q_cldv),
	)

TYPEDEF_STRUCT (dw_ptr_t, 
	(char *, pp_c),
	(bool *, pp_b),
	(signed char *, pp_sc),
	(unsigned char *, pp_uc),
	(short *, pp_h),
	(unsigned short *, pp_uh),
	(int *, pp_i),
	(unsigned int *, pp_ui),
	(long *, pp_l),
	(unsigned long *, pp_ul),
	(long long *, pp_ll),
	(unsigned long long *, pp_ull),
	(int8_t *, pp_i8),
	(uint8_t *, pp_u8),
	(int16_t *, pp_i16),
	(uint16_t *, pp_u16),
	(int32_t *, pp_i32),
	(uint32_t *, pp_u32),
	(int64_t *, pp_i64),
	(uint64_t *, pp_u64),
	(size_t *, pp_sz),
	(ssize_t *, pp_ssz),
	(mr_int128_t *, pp_i128),
	(mr_uint128_t *, pp_u128),
	(float *, pp_f),
	(double *, pp_d),
	(long double *, pp_ld),
	(complex float *, pp_cf),
	(complex double *, pp_cd),
	(complex long double *, pp_cld),
	(long_double_t *, pp_ldt),
	(string_t *, pp_s),
	(void *, pp_void),
	(int **, pp2_i),
	)

TYPEDEF_STRUCT (dw_cptr_t, 
	(char const *, cp_c0, , "meta of cp_c0"),
	(char volatile *, cp_c1, , "meta of cp_c1"),
	(char const volatile *, cp_c2, , "meta of cp_c2"),
	(bool const *, cp_b0, , "meta of cp_b0"),
	(bool volatile *, cp_b1, , "meta of cp_b1"),
	(bool const volatile *, cp_b2, , "meta of cp_b2"),
	(signed char const *, cp_sc0, , "meta of cp_sc0"),
	(signed char volatile *, cp_sc1, , "meta of cp_sc1"),
	(signed char const volatile *, cp_sc2, , "meta of cp_sc2"),
	(unsigned char const *, cp_uc0, , "meta of cp_uc0"),
	(unsigned char volatile *, cp_uc1, , "meta of cp_uc1"),
	(unsigned char const volatile *, cp_uc2, , "meta of cp_uc2"),
	(short const *, cp_h0, , "meta of cp_h0"),
	(short volatile *, cp_h1, , "meta of cp_h1"),
	(short const volatile *, cp_h2, , "meta of cp_h2"),
	(unsigned short const *, cp_uh0, , "meta of cp_uh0"),
	(unsigned short volatile *, cp_uh1, , "meta of cp_uh1"),
	(unsigned short const volatile *, cp_uh2, , "meta of cp_uh2"),
	(int const *, cp_i0, , "meta of cp_i0"),
	(int volatile *, cp_i1, , "meta of cp_i1"),
	(int const volatile *, cp_i2, , "meta of cp_i2"),
	(unsigned int const *, cp_ui0, , "meta of cp_ui0"),
	(unsigned int volatile *, cp_ui1, , "meta of cp_ui1"),
	(unsigned int const volatile *, cp_ui2, , "meta of cp_ui2"),
	(long const *, cp_l0, , "meta of cp_l0"),
	(long volatile *, cp_l1, , "meta of cp_l1"),
	(long const volatile *, cp_l2, , "meta of cp_l2"),
	(unsigned long const *, cp_ul0, , "meta of cp_ul0"),
	(unsigned long volatile *, cp_ul1, , "meta of cp_ul1"),
	(unsigned long const volatile *, cp_ul2, , "meta of cp_ul2"),
	(long long const *, cp_ll0, , "meta of cp_ll0"),
	(long long volatile *, cp_ll1, , "meta of cp_ll1"),
	(long long const volatile *, cp_ll2, , "meta of cp_ll2"),
	(unsigned long long const *, cp_ull0, , "meta of cp_ull0"),
	(unsigned long long volatile *, cp_ull1, , "meta of cp_ull1"),
	(unsigned long long const volatile *, cp_ull2, , "meta of cp_ull2"),
	(int8_t const *, cp_i80, , "meta of cp_i80"),
	(int8_t volatile *, cp_i81, , "meta of cp_i81"),
	(int8_t const volatile *, cp_i82, , "meta of cp_i82"),
	(uint8_t const *, cp_u80, , "meta of cp_u80"),
	(uint8_t volatile *, cp_u81, , "meta of cp_u81"),
	(uint8_t const volatile *, cp_u82, , "meta of cp_u82"),
	(int16_t const *, cp_i160, , "meta of cp_i160"),
	(int16_t volatile *, cp_i161, , "meta of cp_i161"),
	(int16_t const volatile *, cp_i162, , "meta of cp_i162"),
	(uint16_t const *, cp_u160, , "meta of cp_u160"),
	(uint16_t volatile *, cp_u161, , "meta of cp_u161"),
	(uint16_t const volatile *, cp_u162, , "meta of cp_u162"),
	(int32_t const *, cp_i320, , "meta of cp_i320"),
	(int32_t volatile *, cp_i321, , "meta of cp_i321"),
	(int32_t const volatile *, cp_i322, , "meta of cp_i322"),
	(uint32_t const *, cp_u320, , "meta of cp_u320"),
	(uint32_t volatile *, cp_u321, , "meta of cp_u321"),
	(uint32_t const volatile *, cp_u322, , "meta of cp_u322"),
	(int64_t const *, cp_i640, , "meta of cp_i640"),
	(int64_t volatile *, cp_i641, , "meta of cp_i641"),
	(int64_t const volatile *, cp_i642, , "meta of cp_i642"),
	(uint64_t const *, cp_u640, , "meta of cp_u640"),
	(uint64_t volatile *, cp_u641, , "meta of cp_u641"),
	(uint64_t const volatile *, cp_u642, , "meta of cp_u642"),
	(size_t const *, cp_sz0, , "meta of cp_sz0"),
	(size_t volatile *, cp_sz1, , "meta of cp_sz1"),
	(size_t const volatile *, cp_sz2, , "meta of cp_sz2"),
	(ssize_t const *, cp_ssz0, , "meta of cp_ssz0"),
	(ssize_t volatile *, cp_ssz1, , "meta of cp_ssz1"),
	(ssize_t const volatile *, cp_ssz2, , "meta of cp_ssz2"),
	(mr_int128_t const *, cp_i1280, , "meta of cp_i1280"),
	(mr_int128_t volatile *, cp_i1281, , "meta of cp_i1281"),
	(mr_int128_t const volatile *, cp_i1282, , "meta of cp_i1282"),
	(mr_uint128_t const *, cp_u1280, , "meta of cp_u1280"),
	(mr_uint128_t volatile *, cp_u1281, , "meta of cp_u1281"),
	(mr_uint128_t const volatile *, cp_u1282, , "meta of cp_u1282"),
	(float const *, cp_f0, , "meta of cp_f0"),
	(float volatile *, cp_f1, , "meta of cp_f1"),
	(float const volatile *, cp_f2, , "meta of cp_f2"),
	(double const *, cp_d0, , "meta of cp_d0"),
	(double volatile *, cp_d1, , "meta of cp_d1"),
	(double const volatile *, cp_d2, , "meta of cp_d2"),
	(long double const *, cp_ld0, , "meta of cp_ld0"),
	(long double volatile *, cp_ld1, , "meta of cp_ld1"),
	(long double const volatile *, cp_ld2, , "meta of cp_ld2"),
	(long_double_t const *, cp_ldt0, , "meta of cp_ldt0"),
	(long_double_t volatile *, cp_ldt1, , "meta of cp_ldt1"),
	(long_double_t const volatile *, cp_ldt2, , "meta of cp_ldt2"),
	(string_t const *, cp_s0, , "meta of cp_s0"),
	(string_t volatile *, cp_s1, , "meta of cp_s1"),
	(string_t const volatile *, cp_s2, , "meta of cp_s2"),
	)

TYPEDEF_STRUCT (dw_arr_t, 
	(char, a1_c, [3]),
	(bool, a1_b, [3]),
	(signed char, a1_sc, [3]),
	(unsigned char, a1_uc, [3]),
	(short, a1_h, [3]),
	(unsigned short, a1_uh, [3]),
	(int, a1_i, [3]),
	(unsigned int, a1_ui, [3]),
	(long, a1_l, [3]),
	(unsigned long, a1_ul, [3]),
	(long long, a1_ll, [3]),
	(unsigned long long, a1_ull, [3]),
	(int8_t, a1_i8, [3]),
	(uint8_t, a1_u8, [3]),
	(int16_t, a1_i16, [3]),
	(uint16_t, a1_u16, [3]),
	(int32_t, a1_i32, [3]),
	(uint32_t, a1_u32, [3]),
	(int64_t, a1_i64, [3]),
	(uint64_t, a1_u64, [3]),
	(size_t, a1_sz, [3]),
	(ssize_t, a1_ssz, [3]),
	(mr_int128_t, a1_i128, [3]),
	(mr_uint128_t, a1_u128, [3]),
	(float, a1_f, [3]),
	(double, a1_d, [3]),
	(long double, a1_ld, [3]),
	(complex float, a1_cf, [3]),
	(complex double, a1_cd, [3]),
	(complex long double, a1_cld, [3]),
	(long_double_t, a1_ldt, [3]),
	(string_t, a1_s, [3]),
	(char, a1n_c, [1], "meta of a1n_c"),
	(bool, a1n_b, [1], "meta of a1n_b"),
	(signed char, a1n_sc, [1], "meta of a1n_sc"),
	(unsigned char, a1n_uc, [1], "meta of a1n_uc"),
	(short, a1n_h, [1], "meta of a1n_h"),
	(unsigned short, a1n_uh, [1], "meta of a1n_uh"),
	(int, a1n_i, [1], "meta of a1n_i"),
	(unsigned int, a1n_ui, [1], "meta of a1n_ui"),
	)

TYPEDEF_STRUCT (dw_arr2_t, 
	(char, a2_c, [3][5], "meta of a2_c", { "res of a2_c" }, "string"),
	(bool, a2_b, [3][5], "meta of a2_b", { "res of a2_b" }, "string"),
	(signed char, a2_sc, [3][5], "meta of a2_sc", { "res of a2_sc" }, "string"),
	(unsigned char, a2_uc, [3][5], "meta of a2_uc", { "res of a2_uc" }, "string"),
	(short, a2_h, [3][5], "meta of a2_h", { "res of a2_h" }, "string"),
	(unsigned short, a2_uh, [3][5], "meta of a2_uh", { "res of a2_uh" }, "string"),
	(int, a2_i, [3][5], "meta of a2_i", { "res of a2_i" }, "string"),
	(unsigned int, a2_ui, [3][5], "meta of a2_ui", { "res of a2_ui" }, "string"),
	(long, a2_l, [3][5], "meta of a2_l", { "res of a2_l" }, "string"),
	(unsigned long, a2_ul, [3][5], "meta of a2_ul", { "res of a2_ul" }, "string"),
	(long long, a2_ll, [3][5], "meta of a2_ll", { "res of a2_ll" }, "string"),
	(unsigned long long, a2_ull, [3][5], "meta of a2_ull", { "res of a2_ull" }, "string"),
	(int8_t, a2_i8, [3][5], "meta of a2_i8", { "res of a2_i8" }, "string"),
	(uint8_t, a2_u8, [3][5], "meta of a2_u8", { "res of a2_u8" }, "string"),
	(int16_t, a2_i16, [3][5], "meta of a2_i16", { "res of a2_i16" }, "string"),
	(uint16_t, a2_u16, [3][5], "meta of a2_u16", { "res of a2_u16" }, "string"),
	(int32_t, a2_i32, [3][5], "meta of a2_i32", { "res of a2_i32" }, "string"),
	(uint32_t, a2_u32, [3][5], "meta of a2_u32", { "res of a2_u32" }, "string"),
	(int64_t, a2_i64, [3][5], "meta of a2_i64", { "res of a2_i64" }, "string"),
	(uint64_t, a2_u64, [3][5], "meta of a2_u64", { "res of a2_u64" }, "string"),
	(short, a3_h, [2][3][5]),
	(unsigned short, a3_uh, [2][3][5]),
	(int, a3_i, [2][3][5]),
	(unsigned int, a3_ui, [2][3][5]),
	(long, a3_l, [2][3][5]),
	(unsigned long, a3_ul, [2][3][5]),
	(long long, a3_ll, [2][3][5]),
	(unsigned long long, a3_ull, [2][3][5]),
	(int8_t, a3_i8, [2][3][5]),
	(uint8_t, a3_u8, [2][3][5]),
	(short, a4_h, [2][3][5][7]),
	(unsigned short, a4_uh, [2][3][5][7]),
	(int, a4_i, [2][3][5][7]),
	(unsigned int, a4_ui, [2][3][5][7]),
	(long, a4_l, [2][3][5][7]),
	(unsigned long, a4_ul, [2][3][5][7]),
	(long long, a4_ll, [2][3][5][7]),
	(unsigned long long, a4_ull, [2][3][5][7]),
	(int8_t, a4_i8, [2][3][5][7]),
	(uint8_t, a4_u8, [2][3][5][7]),
	(short, a21_h, [1][4]),
	(unsigned short, a21_uh, [1][4]),
	(int, a21_i, [1][4]),
	(unsigned int, a21_ui, [1][4]),
	(short, a41_h, [1][1][1][1]),
	(unsigned short, a41_uh, [1][1][1][1]),
	(int, a41_i, [1][1][1][1]),
	(unsigned int, a41_ui, [1][1][1][1]),
	)

TYPEDEF_STRUCT (dw_parr_t, 
	(char *, pa1_c, [3]),
	(bool *, pa1_b, [3]),
	(signed char *, pa1_sc, [3]),
	(unsigned char *, pa1_uc, [3]),
	(short *, pa1_h, [3]),
	(unsigned short *, pa1_uh, [3]),
	(int *, pa1_i, [3]),
	(unsigned int *, pa1_ui, [3]),
	(long *, pa1_l, [3]),
	(unsigned long *, pa1_ul, [3]),
	(long long *, pa1_ll, [3]),
	(unsigned long long *, pa1_ull, [3]),
	(int8_t *, pa1_i8, [3]),
	(uint8_t *, pa1_u8, [3]),
	(int16_t *, pa1_i16, [3]),
	(uint16_t *, pa1_u16, [3]),
	(int32_t *, pa1_i32, [3]),
	(uint32_t *, pa1_u32, [3]),
	(int64_t *, pa1_i64, [3]),
	(uint64_t *, pa1_u64, [3]),
	(const char *, pa2_c, [3][2]),
	(const bool *, pa2_b, [3][2]),
	(const signed char *, pa2_sc, [3][2]),
	(const unsigned char *, pa2_uc, [3][2]),
	(const short *, pa2_h, [3][2]),
	(const unsigned short *, pa2_uh, [3][2]),
	(const int *, pa2_i, [3][2]),
	(const unsigned int *, pa2_ui, [3][2]),
	(const long *, pa2_l, [3][2]),
	(const unsigned long *, pa2_ul, [3][2]),
	(const long long *, pa2_ll, [3][2]),
	(const unsigned long long *, pa2_ull, [3][2]),
	(const int8_t *, pa2_i8, [3][2]),
	(const uint8_t *, pa2_u8, [3][2]),
	(const int16_t *, pa2_i16, [3][2]),
	(const uint16_t *, pa2_u16, [3][2]),
	(const int32_t *, pa2_i32, [3][2]),
	(const uint32_t *, pa2_u32, [3][2]),
	(const int64_t *, pa2_i64, [3][2]),
	(const uint64_t *, pa2_u64, [3][2]),
	)

TYPEDEF_STRUCT (dw_array_t, 
	ARRAY (char, x1_c, [3]),
	ARRAY (bool, x1_b, [3]),
	ARRAY (signed char, x1_sc, [3]),
	ARRAY (unsigned char, x1_uc, [3]),
	ARRAY (short, x1_h, [3]),
	ARRAY (unsigned short, x1_uh, [3]),
	ARRAY (int, x1_i, [3]),
	ARRAY (unsigned int, x1_ui, [3]),
	ARRAY (long, x1_l, [3]),
	ARRAY (unsigned long, x1_ul, [3]),
	ARRAY (long long, x1_ll, [3]),
	ARRAY (unsigned long long, x1_ull, [3]),
	ARRAY (char, x2_c, [3][4], "meta of x2_c", { "res of x2_c" }, "string"),
	ARRAY (bool, x2_b, [3][4], "meta of x2_b", { "res of x2_b" }, "string"),
	ARRAY (signed char, x2_sc, [3][4], "meta of x2_sc", { "res of x2_sc" }, "string"),
	ARRAY (unsigned char, x2_uc, [3][4], "meta of x2_uc", { "res of x2_uc" }, "string"),
	ARRAY (short, x2_h, [3][4], "meta of x2_h", { "res of x2_h" }, "string"),
	ARRAY (unsigned short, x2_uh, [3][4], "meta of x2_uh", { "res of x2_uh" }, "string"),
	ARRAY (int, x2_i, [3][4], "meta of x2_i", { "res of x2_i" }, "string"),
	ARRAY (unsigned int, x2_ui, [3][4], "meta of x2_ui", { "res of x2_ui" }, "string"),
	ARRAY (long, x2_l, [3][4], "meta of x2_l", { "res of x2_l" }, "string"),
	ARRAY (unsigned long, x2_ul, [3][4], "meta of x2_ul", { "res of x2_ul" }, "string"),
	ARRAY (long long, x2_ll, [3][4], "meta of x2_ll", { "res of x2_ll" }, "string"),
	ARRAY (unsigned long long, x2_ull, [3][4], "meta of x2_ull", { "res of x2_ull" }, "string"),
	ARRAY (short, x4_h, [2][3][4][5]),
	ARRAY (unsigned short, x4_uh, [2][3][4][5]),
	ARRAY (int, x4_i, [2][3][4][5]),
	ARRAY (unsigned int, x4_ui, [2][3][4][5]),
	)

TYPEDEF_STRUCT (dw_bf_t, 
	(char, bf1_c, : 1),
	(bool, bf1_b, : 1),
	(signed char, bf1_sc, : 1),
	(unsigned char, bf1_uc, : 1),
	(short, bf1_h, : 1),
	(unsigned short, bf1_uh, : 1),
	(int, bf1_i, : 1),
	(unsigned int, bf1_ui, : 1),
	(long, bf1_l, : 1),
	(unsigned long, bf1_ul, : 1),
	(long long, bf1_ll, : 1),
	(unsigned long long, bf1_ull, : 1),
	(int8_t, bf1_i8, : 1),
	(uint8_t, bf1_u8, : 1),
	(int16_t, bf1_i16, : 1),
	(uint16_t, bf1_u16, : 1),
	(int32_t, bf1_i32, : 1),
	(uint32_t, bf1_u32, : 1),
	(int64_t, bf1_i64, : 1),
	(uint64_t, bf1_u64, : 1),
	(size_t, bf1_sz, : 1),
	(ssize_t, bf1_ssz, : 1),
	(char, bf3_c, : 3, "meta of bf3_c", { "res of bf3_c" }, "string"),
	(signed char, bf3_sc, : 3, "meta of bf3_sc", { "res of bf3_sc" }, "string"),
	(unsigned char, bf3_uc, : 3, "meta of bf3_uc", { "res of bf3_uc" }, "string"),
	(short, bf3_h, : 3, "meta of bf3_h", { "res of bf3_h" }, "string"),
	(unsigned short, bf3_uh, : 3, "meta of bf3_uh", { "res of bf3_uh" }, "string"),
	(int, bf3_i, : 3, "meta of bf3_i", { "res of bf3_i" }, "string"),
	(unsigned int, bf3_ui, : 3, "meta of bf3_ui", { "res of bf3_ui" }, "string"),
	(long, bf3_l, : 3, "meta of bf3_l", { "res of bf3_l" }, "string"),
	(unsigned long, bf3_ul, : 3, "meta of bf3_ul", { "res of bf3_ul" }, "string"),
	(long long, bf3_ll, : 3, "meta of bf3_ll", { "res of bf3_ll" }, "string"),
	(unsigned long long, bf3_ull, : 3, "meta of bf3_ull", { "res of bf3_ull" }, "string"),
	(int8_t, bf3_i8, : 3, "meta of bf3_i8", { "res of bf3_i8" }, "string"),
	(uint8_t, bf3_u8, : 3, "meta of bf3_u8", { "res of bf3_u8" }, "string"),
	(int16_t, bf3_i16, : 3, "meta of bf3_i16", { "res of bf3_i16" }, "string"),
	(uint16_t, bf3_u16, : 3, "meta of bf3_u16", { "res of bf3_u16" }, "string"),
	(int32_t, bf3_i32, : 3, "meta of bf3_i32", { "res of bf3_i32" }, "string"),
	(uint32_t, bf3_u32, : 3, "meta of bf3_u32", { "res of bf3_u32" }, "string"),
	(int64_t, bf3_i64, : 3, "meta of bf3_i64", { "res of bf3_i64" }, "string"),
	(uint64_t, bf3_u64, : 3, "meta of bf3_u64", { "res of bf3_u64" }, "string"),
	(size_t, bf3_sz, : 3, "meta of bf3_sz", { "res of bf3_sz" }, "string"),
	(ssize_t, bf3_ssz, : 3, "meta of bf3_ssz", { "res of bf3_ssz" }, "string"),
	(char, bf7_c, : 7, "meta of bf7_c"),
	(signed char, bf7_sc, : 7, "meta of bf7_sc"),
	(unsigned char, bf7_uc, : 7, "meta of bf7_uc"),
	(short, bf7_h, : 7, "meta of bf7_h"),
	(unsigned short, bf7_uh, : 7, "meta of bf7_uh"),
	(int, bf7_i, : 7, "meta of bf7_i"),
	(unsigned int, bf7_ui, : 7, "meta of bf7_ui"),
	(long, bf7_l, : 7, "meta of bf7_l"),
	(unsigned long, bf7_ul, : 7, "meta of bf7_ul"),
	(long long, bf7_ll, : 7, "meta of bf7_ll"),
	(unsigned long long, bf7_ull, : 7, "meta of bf7_ull"),
	(int8_t, bf7_i8, : 7, "meta of bf7_i8"),
	(uint8_t, bf7_u8, : 7, "meta of bf7_u8"),
	(int16_t, bf7_i16, : 7, "meta of bf7_i16"),
	(uint16_t, bf7_u16, : 7, "meta of bf7_u16"),
	(int32_t, bf7_i32, : 7, "meta of bf7_i32"),
	(uint32_t, bf7_u32, : 7, "meta of bf7_u32"),
	(int64_t, bf7_i64, : 7, "meta of bf7_i64"),
	(uint64_t, bf7_u64, : 7, "meta of bf7_u64"),
	(size_t, bf7_sz, : 7, "meta of bf7_sz"),
	(ssize_t, bf7_ssz, : 7, "meta of bf7_ssz"),
	)

TYPEDEF_STRUCT (dw_bf2_t, 
	(int, x),
	(uint64_t, w60, : 60),
	(uint64_t, w61, : 61),
	(int64_t, w33, : 33),
	(uint8_t, w8, : 8),
	(uint16_t, w16, : 16),
	(int32_t, w32, : 32),
	(int64_t, w64, : 64),
	(bool, wb, : 1),
	(char, y),
	)

TYPEDEF_STRUCT (dw_bfp_t, ATTRIBUTES (__attribute__ ((packed))),
	(uint8_t, k5, : 5),
	(uint32_t, k17, : 17),
	(uint64_t, k62, : 62),
	(int16_t, k9, : 9),
	(char, z),
	)

TYPEDEF_STRUCT (dw_bitfield_t, 
	BITFIELD (char, y_c, : 5, "meta of y_c", { "res of y_c" }, "string"),
	BITFIELD (bool, y_b, : 1, "meta of y_b", { "res of y_b" }, "string"),
	BITFIELD (signed char, y_sc, : 5, "meta of y_sc", { "res of y_sc" }, "string"),
	BITFIELD (unsigned char, y_uc, : 5, "meta of y_uc", { "res of y_uc" }, "string"),
	BITFIELD (short, y_h, : 5, "meta of y_h", { "res of y_h" }, "string"),
	BITFIELD (unsigned short, y_uh, : 5, "meta of y_uh", { "res of y_uh" }, "string"),
	BITFIELD (int, y_i, : 5, "meta of y_i", { "res of y_i" }, "string"),
	BITFIELD (unsigned int, y_ui, : 5, "meta of y_ui", { "res of y_ui" }, "string"),
	BITFIELD (long, y_l, : 5, "meta of y_l", { "res of y_l" }, "string"),
	BITFIELD (unsigned long, y_ul, : 5, "meta of y_ul", { "res of y_ul" }, "string"),
	BITFIELD (long long, y_ll, : 5, "meta of y_ll", { "res of y_ll" }, "string"),
	BITFIELD (unsigned long long, y_ull, : 5, "meta of y_ull", { "res of y_ull" }, "string"),
	BITFIELD (int8_t, y_i8, : 5, "meta of y_i8", { "res of y_i8" }, "string"),
	BITFIELD (uint8_t, y_u8, : 5, "meta of y_u8", { "res of y_u8" }, "string"),
	BITFIELD (int16_t, y_i16, : 5, "meta of y_i16", { "res of y_i16" }, "string"),
	BITFIELD (uint16_t, y_u16, : 5, "meta of y_u16", { "res of y_u16" }, "string"),
	BITFIELD (int32_t, y_i32, : 5, "meta of y_i32", { "res of y_i32" }, "string"),
	BITFIELD (uint32_t, y_u32, : 5, "meta of y_u32", { "res of y_u32" }, "string"),
	BITFIELD (int64_t, y_i64, : 5, "meta of y_i64", { "res of y_i64" }, "string"),
	BITFIELD (uint64_t, y_u64, : 5, "meta of y_u64", { "res of y_u64" }, "string"),
	BITFIELD (size_t, y_sz, : 5, "meta of y_sz", { "res of y_sz" }, "string"),
	BITFIELD (ssize_t, y_ssz, : 5, "meta of y_ssz", { "res of y_ssz" }, "string"),
	BITFIELD (char, yy_c, : 6),
	BITFIELD (bool, yy_b, : 1),
	BITFIELD (signed char, yy_sc, : 6),
	BITFIELD (unsigned char, yy_uc, : 6),
	BITFIELD (short, yy_h, : 6),
	BITFIELD (unsigned short, yy_uh, : 6),
	BITFIELD (int, yy_i, : 6),
	BITFIELD (unsigned int, yy_ui, : 6),
	BITFIELD (long, yy_l, : 6),
	BITFIELD (unsigned long, yy_ul, : 6),
	BITFIELD (long long, yy_ll, : 6),
	BITFIELD (unsigned long long, yy_ull, : 6),
	BITFIELD (int8_t, yy_i8, : 6),
	BITFIELD (uint8_t, yy_u8, : 6),
	BITFIELD (int16_t, yy_i16, : 6),
	BITFIELD (uint16_t, yy_u16, : 6),
	BITFIELD (int32_t, yy_i32, : 6),
	BITFIELD (uint32_t, yy_u32, : 6),
	BITFIELD (int64_t, yy_i64, : 6),
	BITFIELD (uint64_t, yy_u64, : 6),
	BITFIELD (size_t, yy_sz, : 6),
	BITFIELD (ssize_t, yy_ssz, : 6),
	)

TYPEDEF_STRUCT (dw_void_t, 
	VOID (char, v_c),
	VOID (bool, v_b),
	VOID (signed char, v_sc),
	VOID (unsigned char, v_uc),
	VOID (short, v_h),
	VOID (unsigned short, v_uh),
	VOID (int, v_i),
	VOID (unsigned int, v_ui),
	VOID (long, v_l),
	VOID (unsigned long, v_ul),
	VOID (long long, v_ll),
	VOID (unsigned long long, v_ull),
	VOID (int8_t, v_i8),
	VOID (uint8_t, v_u8),
	VOID (int16_t, v_i16),
	VOID (uint16_t, v_u16),
	VOID (int32_t, v_i32),
	VOID (uint32_t, v_u32),
	VOID (int64_t, v_i64),
	VOID (uint64_t, v_u64),
	VOID (size_t, v_sz),
	VOID (ssize_t, v_ssz),
	VOID (mr_int128_t, v_i128),
	VOID (mr_uint128_t, v_u128),
	VOID (float, v_f),
	VOID (double, v_d),
	VOID (long double, v_ld),
	VOID (complex float, v_cf),
	VOID (complex double, v_cd),
	VOID (complex long double, v_cld),
	VOID (long_double_t, v_ldt),
	VOID (string_t, v_s),
	VOID (char, vn_c, , "meta of vn_c", { "res of vn_c" }, "string"),
	VOID (bool, vn_b, , "meta of vn_b", { "res of vn_b" }, "string"),
	VOID (signed char, vn_sc, , "meta of vn_sc", { "res of vn_sc" }, "string"),
	VOID (unsigned char, vn_uc, , "meta of vn_uc", { "res of vn_uc" }, "string"),
	VOID (short, vn_h, , "meta of vn_h", { "res of vn_h" }, "string"),
	VOID (unsigned short, vn_uh, , "meta of vn_uh", { "res of vn_uh" }, "string"),
	VOID (int, vn_i, , "meta of vn_i", { "res of vn_i" }, "string"),
	VOID (unsigned int, vn_ui, , "meta of vn_ui", { "res of vn_ui" }, "string"),
	VOID (long, vn_l, , "meta of vn_l", { "res of vn_l" }, "string"),
	VOID (unsigned long, vn_ul, , "meta of vn_ul", { "res of vn_ul" }, "string"),
	VOID (long long, vn_ll, , "meta of vn_ll", { "res of vn_ll" }, "string"),
	VOID (unsigned long long, vn_ull, , "meta of vn_ull", { "res of vn_ull" }, "string"),
	VOID (int8_t, vn_i8, , "meta of vn_i8", { "res of vn_i8" }, "string"),
	VOID (uint8_t, vn_u8, , "meta of vn_u8", { "res of vn_u8" }, "string"),
	VOID (int16_t, vn_i16, , "meta of vn_i16", { "res of vn_i16" }, "string"),
	VOID (uint16_t, vn_u16, , "meta of vn_u16", { "res of vn_u16" }, "string"),
	VOID (int32_t, vn_i32, , "meta of vn_i32", { "res of vn_i32" }, "string"),
	VOID (uint32_t, vn_u32, , "meta of vn_u32", { "res of vn_u32" }, "string"),
	VOID (int64_t, vn_i64, , "meta of vn_i64", { "res of vn_i64" }, "string"),
	VOID (uint64_t, vn_u64, , "meta of vn_u64", { "res of vn_u64" }, "string"),
	VOID (size_t, vn_sz, , "meta of vn_sz", { "res of vn_sz" }, "string"),
	VOID (ssize_t, vn_ssz, , "meta of vn_ssz", { "res of vn_ssz" }, "string"),
	VOID (mr_int128_t, vn_i128, , "meta of vn_i128", { "res of vn_i128" }, "string"),
	VOID (mr_uint128_t, vn_u128, , "meta of vn_u128", { "res of vn_u128" }, "string"),
	VOID (float, vn_f, , "meta of vn_f", { "res of vn_f" }, "string"),
	VOID (double, vn_d, , "meta of vn_d", { "res of vn_d" }, "string"),
	VOID (long double, vn_ld, , "meta of vn_ld", { "res of vn_ld" }, "string"),
	VOID (complex float, vn_cf, , "meta of vn_cf", { "res of vn_cf" }, "string"),
	VOID (complex double, vn_cd, , "meta of vn_cd", { "res of vn_cd" }, "string"),
	VOID (complex long double, vn_cld, , "meta of vn_cld", { "res of vn_cld" }, "string"),
	VOID (long_double_t, vn_ldt, , "meta of vn_ldt", { "res of vn_ldt" }, "string"),
	VOID (string_t, vn_s, , "meta of vn_s", { "res of vn_s" }, "string"),
	VOID (char, va_c, [4]),
	VOID (bool, va_b, [4]),
	VOID (signed char, va_sc, [4]),
	VOID (unsigned char, va_uc, [4]),
	VOID (short, va_h, [4]),
	VOID (unsigned short, va_uh, [4]),
	VOID (int, va_i, [4]),
	VOID (unsigned int, va_ui, [4]),
	VOID (char, vb_c, : 2),
	VOID (signed char, vb_sc, : 2),
	VOID (unsigned char, vb_uc, : 2),
	VOID (short, vb_h, : 2),
	VOID (unsigned short, vb_uh, : 2),
	VOID (int, vb_i, : 2),
	VOID (unsigned int, vb_ui, : 2),
	VOID (long, vb_l, : 2),
	VOID (unsigned long, vb_ul, : 2),
	VOID (long long, vb_ll, : 2),
	VOID (unsigned long long, vb_ull, : 2),
	VOID (int8_t, vb_i8, : 2),
	VOID (uint8_t, vb_u8, : 2),
	VOID (int16_t, vb_i16, : 2),
	VOID (uint16_t, vb_u16, : 2),
	VOID (int32_t, vb_i32, : 2),
	VOID (uint32_t, vb_u32, : 2),
	VOID (int64_t, vb_i64, : 2),
	VOID (uint64_t, vb_u64, : 2),
	VOID (size_t, vb_sz, : 2),
	VOID (ssize_t, vb_ssz, : 2),
	VOID (int, vf1, (int, char *)),
	VOID (void, vf2, (void), "meta of vf2"),
	VOID (dw_plain_t, vs),
	VOID (dw_plain_t *, vsp),
	)

TYPEDEF_ENUM (dw_enum_t, ATTRIBUTES (, "meta of dw_enum_t", { "res of dw_enum_t" }, "string"),
	DW_E0,
	(DW_E1, = 5),
	(DW_E2, , "meta of DW_E2"),
	(DW_E3, = -7, "meta of DW_E3"),
	(DW_E4, = 0x7fffffff, "meta of DW_E4", { "res of DW_E4" }, "string"),
	(DW_E5, = 3, "meta of DW_E5", { "res of DW_E5" }, "string", 24),
	)

TYPEDEF_ENUM (dw_uenum_t, 
	(DW_U0, = 1),
	(DW_U1, = 0x80000000u),
	(DW_U2, = 0xffffffffu),
	(DW_U3, = 12),
	)

TYPEDEF_ENUM (dw_lenum_t, 
	(DW_L0, = -1L),
	(DW_L1, = 0x123456789abcdefL),
	(DW_L2, = (-0x7fffffffffffffffL - 1)),
	DW_L3,
	)

TYPEDEF_ENUM (dw_ulenum_t, 
	(DW_UL0, = 0xffffffffffffffffUL),
	(DW_UL1, = 0x8000000000000000UL),
	(DW_UL2, = 2),
	)

TYPEDEF_ENUM (dw_penum_t, ATTRIBUTES (__attribute__ ((packed))),
	(DW_P0, = 0),
	(DW_P1, = 200),
	DW_P2,
	)

TYPEDEF_ENUM (dw_psenum_t, ATTRIBUTES (__attribute__ ((packed)), "meta of dw_psenum_t"),
	(DW_PS0, = -100),
	(DW_PS1, = 100),
	)

TYPEDEF_ENUM (dw_pwenum_t, ATTRIBUTES (__attribute__ ((packed))),
	(DW_PW0, = -100),
	(DW_PW1, = 30000),
	)

TYPEDEF_STRUCT (dw_self_t, 
	(dw_self_t *, next),
	(const dw_self_t *, cnext),
	(volatile dw_self_t *, vnext, , "meta of vnext"),
	(struct dw_self_t *, snext),
	(dw_plain_t *, pl),
	(dw_note_t, note),
	(dw_enum_t, en),
	(dw_penum_t, pen),
	(dw_enum_t *, enp),
	(dw_plain_t, pls, [2]),
	(dw_enum_t, ens, [3][2]),
	(dw_lenum_t, len, : 40),
	(dw_enum_t, ebf, : 4),
	)

TYPEDEF_STRUCT (dw_untyped_t, 
	(int, first),
	(long, second),
	)

TYPEDEF_STRUCT (dw_short_t, 
	int si,
	unsigned int sui,
	long slong,
	char sc,
	double sd,
	const char scc,
	volatile int svi,
	uint8_t su8,
	int64_t s64,
	size_t ssz,
	float sf,
	long double sld,
	string_t sstr,
	bool sb,
	short ssh,
	signed char ssc,
	)

TYPEDEF_UNION (dw_union_t, ATTRIBUTES (, "meta of dw_union_t"),
	(char, u_c),
	(bool, u_b),
	(signed char, u_sc),
	(unsigned char, u_uc),
	(short, u_h),
	(unsigned short, u_uh),
	(int, u_i),
	(unsigned int, u_ui),
	(long, u_l),
	(unsigned long, u_ul),
	(long long, u_ll),
	(unsigned long long, u_ull),
	(int8_t, u_i8),
	(uint8_t, u_u8),
	(int16_t, u_i16),
	(uint16_t, u_u16),
	(int32_t, u_i32),
	(uint32_t, u_u32),
	(int64_t, u_i64),
	(uint64_t, u_u64),
	(size_t, u_sz),
	(ssize_t, u_ssz),
	(mr_int128_t, u_i128),
	(mr_uint128_t, u_u128),
	(float, u_f),
	(double, u_d),
	(long double, u_ld),
	(complex float, u_cf),
	(complex double, u_cd),
	(complex long double, u_cld),
	(long_double_t, u_ldt),
	(string_t, u_s),
	(int, u_arr, [7]),
	(uint32_t, u_bf, : 9),
	)

TYPEDEF_STRUCT (dw_anon_t, 
	(int, before),
	ANON_UNION (),
	(int, ai),
	(double, ad, , "meta of ad"),
	(char, aa, [24]),
	END_ANON_UNION ("meta of anon"),
	(char, after),
	(dw_union_t, un, , "before"),
	(void *, vp, , "meta of vp"),
	)

TYPEDEF_STRUCT (dw_nanon_t, 
	(char *, tag),
	(int, before),
	ANON_UNION (named),
	(int, ni),
	(double, nd),
	ANON_UNION (),
	(short, deep),
	(char *, deeps),
	END_ANON_UNION ("before"),
	END_ANON_UNION ("tag"),
	(short, after),
	)

TYPEDEF_STRUCT (dw_anon_attr_t, ATTRIBUTES (__attribute__ ((packed)), "meta of dw_anon_attr_t"),
	(char, c0),
	ANON_UNION (, __attribute__ ((packed))),
	(int, k1),
	(long, k2),
	END_ANON_UNION ("c0"),
	(int, k3),
	)

TYPEDEF_STRUCT (dw_func_t, 
	(int, fn0, (void)),
	(void, fn1, (int)),
	(char *, fn2, (const char *, volatile int *)),
	(double, fn3, (dw_plain_t *, dw_enum_t, bool, float), "meta of fn3"),
	(dw_plain_t *, fn4, (long double, unsigned char)),
	FUNC (uint64_t, fn5, (int8_t, uint16_t, string_t)),
	(dw_enum_t, fn6, (dw_note_t, complex double)),
	)

TYPEDEF_FUNC (int, dw_fn0_t, (void))
TYPEDEF_FUNC (void, dw_fn1_t, (int, char *, const dw_plain_t *), ATTRIBUTES ( , "meta of dw_fn1_t", { "res of dw_fn1_t" }, "string"))
TYPEDEF_FUNC (dw_plain_t *, dw_fn2_t, (dw_enum_t, unsigned long, long double, dw_fn0_t))
TYPEDEF_FUNC (string_t, dw_fn3_t, (uint8_t, int16_t, float, bool, char, complex float))

TYPEDEF_STRUCT (dw_usefn_t, 
	(dw_fn0_t, f0),
	(dw_fn1_t, f1, , "meta of f1"),
	(dw_fn2_t *, f2),
	(dw_fn3_t, f3, [2]),
	)

TYPEDEF_STRUCT (dw_packed_t, ATTRIBUTES (__attribute__ ((packed))),
	(char, c),
	(int, i),
	(char, c2),
	(long double, ld),
	(short, h, [3]),
	(char *, s),
	)

TYPEDEF_STRUCT (dw_aligned_t, ATTRIBUTES (__attribute__ ((aligned (64))), "meta of dw_aligned_t"),
	(char, c),
	(int, i),
	(char, last),
	)

TYPEDEF_STRUCT (dw_empty_tail_t, 
	(int, n),
	(int, tail, [0]),
	)

TYPEDEF_STRUCT (dw_long_t, 
	(char, f0, , "meta of f0"),
	(bool, f1, , "meta of f1"),
	(signed char, f2, , "meta of f2"),
	(unsigned char, f3, , "meta of f3"),
	(short, f4, , "meta of f4"),
	(unsigned short, f5, , "meta of f5"),
	(int, f6, , "meta of f6"),
	(unsigned int, f7, , "meta of f7"),
	(long, f8, , "meta of f8"),
	(unsigned long, f9, , "meta of f9"),
	(long long, f10, , "meta of f10"),
	(unsigned long long, f11, , "meta of f11"),
	(int8_t, f12, , "meta of f12"),
	(uint8_t, f13, , "meta of f13"),
	(int16_t, f14, , "meta of f14"),
	(uint16_t, f15, , "meta of f15"),
	(int32_t, f16, , "meta of f16"),
	(uint32_t, f17, , "meta of f17"),
	(int64_t, f18, , "meta of f18"),
	(uint64_t, f19, , "meta of f19"),
	(size_t, f20, , "meta of f20"),
	(ssize_t, f21, , "meta of f21"),
	(mr_int128_t, f22, , "meta of f22"),
	(mr_uint128_t, f23, , "meta of f23"),
	(float, f24, , "meta of f24"),
	(double, f25, , "meta of f25"),
	(long double, f26, , "meta of f26"),
	(complex float, f27, , "meta of f27"),
	(complex double, f28, , "meta of f28"),
	(complex long double, f29, , "meta of f29"),
	(long_double_t, f30, , "meta of f30"),
	(string_t, f31, , "meta of f31"),
	(char, f32, , "meta of f32"),
	(bool, f33, , "meta of f33"),
	(signed char, f34, , "meta of f34"),
	(unsigned char, f35, , "meta of f35"),
	(short, f36, , "meta of f36"),
	(unsigned short, f37, , "meta of f37"),
	(int, f38, , "meta of f38"),
	(unsigned int, f39, , "meta of f39"),
	(long, f40, , "meta of f40"),
	(unsigned long, f41, , "meta of f41"),
	(long long, f42, , "meta of f42"),
	(unsigned long long, f43, , "meta of f43"),
	(int8_t, f44, , "meta of f44"),
	(uint8_t, f45, , "meta of f45"),
	(int16_t, f46, , "meta of f46"),
	(uint16_t, f47, , "meta of f47"),
	(int32_t, f48, , "meta of f48"),
	(uint32_t, f49, , "meta of f49"),
	(int64_t, f50, , "meta of f50"),
	(uint64_t, f51, , "meta of f51"),
	(size_t, f52, , "meta of f52"),
	(ssize_t, f53, , "meta of f53"),
	(mr_int128_t, f54, , "meta of f54"),
	(mr_uint128_t, f55, , "meta of f55"),
	(float, f56, , "meta of f56"),
	(double, f57, , "meta of f57"),
	(long double, f58, , "meta of f58"),
	(complex float, f59, , "meta of f59"),
	(complex double, f60, , "meta of f60"),
	(complex long double, f61, , "meta of f61"),
	(long_double_t, f62, , "meta of f62"),
	(string_t, f63, , "meta of f63"),
	(char, f64, , "meta of f64"),
	(bool, f65, , "meta of f65"),
	(signed char, f66, , "meta of f66"),
	(unsigned char, f67, , "meta of f67"),
	(short, f68, , "meta of f68"),
	(unsigned short, f69, , "meta of f69"),
	(int, f70, , "meta of f70"),
	(unsigned int, f71, , "meta of f71"),
	(long, f72, , "meta of f72"),
	(unsigned long, f73, , "meta of f73"),
	(long long, f74, , "meta of f74"),
	(unsigned long long, f75, , "meta of f75"),
	(int8_t, f76, , "meta of f76"),
	(uint8_t, f77, , "meta of f77"),
	(int16_t, f78, , "meta of f78"),
	(uint16_t, f79, , "meta of f79"),
	(int32_t, f80, , "meta of f80"),
	(uint32_t, f81, , "meta of f81"),
	(int64_t, f82, , "meta of f82"),
	(uint64_t, f83, , "meta of f83"),
	(size_t, f84, , "meta of f84"),
	(ssize_t, f85, , "meta of f85"),
	(mr_int128_t, f86, , "meta of f86"),
	(mr_uint128_t, f87, , "meta of f87"),
	(float, f88, , "meta of f88"),
	(double, f89, , "meta of f89"),
	(long double, f90, , "meta of f90"),
	(complex float, f91, , "meta of f91"),
	(complex double, f92, , "meta of f92"),
	(complex long double, f93, , "meta of f93"),
	(long_double_t, f94, , "meta of f94"),
	(string_t, f95, , "meta of f95"),
	(char, f96, , "meta of f96"),
	(bool, f97, , "meta of f97"),
	(signed char, f98, , "meta of f98"),
	(unsigned char, f99, , "meta of f99"),
	(short, f100, , "meta of f100"),
	(unsigned short, f101, , "meta of f101"),
	(int, f102, , "meta of f102"),
	(unsigned int, f103, , "meta of f103"),
	(long, f104, , "meta of f104"),
	(unsigned long, f105, , "meta of f105"),
	(long long, f106, , "meta of f106"),
	(unsigned long long, f107, , "meta of f107"),
	(int8_t, f108, , "meta of f108"),
	(uint8_t, f109, , "meta of f109"),
	(int16_t, f110, , "meta of f110"),
	(uint16_t, f111, , "meta of f111"),
	(int32_t, f112, , "meta of f112"),
	(uint32_t, f113, , "meta of f113"),
	(int64_t, f114, , "meta of f114"),
	(uint64_t, f115, , "meta of f115"),
	(size_t, f116, , "meta of f116"),
	(ssize_t, f117, , "meta of f117"),
	(mr_int128_t, f118, , "meta of f118"),
	(mr_uint128_t, f119, , "meta of f119"),
	(float, f120, , "meta of f120"),
	(double, f121, , "meta of f121"),
	(long double, f122, , "meta of f122"),
	(complex float, f123, , "meta of f123"),
	(complex double, f124, , "meta of f124"),
	(complex long double, f125, , "meta of f125"),
	(long_double_t, f126, , "meta of f126"),
	(string_t, f127, , "meta of f127"),
	(char, f128, , "meta of f128"),
	(bool, f129, , "meta of f129"),
	(signed char, f130, , "meta of f130"),
	(unsigned char, f131, , "meta of f131"),
	(short, f132, , "meta of f132"),
	(unsigned short, f133, , "meta of f133"),
	(int, f134, , "meta of f134"),
	(unsigned int, f135, , "meta of f135"),
	(long, f136, , "meta of f136"),
	(unsigned long, f137, , "meta of f137"),
	(long long, f138, , "meta of f138"),
	(unsigned long long, f139, , "meta of f139"),
	(int8_t, f140, , "meta of f140"),
	(uint8_t, f141, , "meta of f141"),
	(int16_t, f142, , "meta of f142"),
	(uint16_t, f143, , "meta of f143"),
	(int32_t, f144, , "meta of f144"),
	(uint32_t, f145, , "meta of f145"),
	(int64_t, f146, , "meta of f146"),
	(uint64_t, f147, , "meta of f147"),
	(size_t, f148, , "meta of f148"),
	(ssize_t, f149, , "meta of f149"),
	)

TYPEDEF_ENUM (dw_elong_t, 
	(DW_EL0, = -50, "meta of DW_EL0"),
	(DW_EL1, = -49, "meta of DW_EL1"),
	(DW_EL2, = -46, "meta of DW_EL2"),
	(DW_EL3, = -41, "meta of DW_EL3"),
	(DW_EL4, = -34, "meta of DW_EL4"),
	(DW_EL5, = -25, "meta of DW_EL5"),
	(DW_EL6, = -14, "meta of DW_EL6"),
	(DW_EL7, = -1, "meta of DW_EL7"),
	(DW_EL8, = 14, "meta of DW_EL8"),
	(DW_EL9, = 31, "meta of DW_EL9"),
	(DW_EL10, = 50, "meta of DW_EL10"),
	(DW_EL11, = 71, "meta of DW_EL11"),
	(DW_EL12, = 94, "meta of DW_EL12"),
	(DW_EL13, = 119, "meta of DW_EL13"),
	(DW_EL14, = 146, "meta of DW_EL14"),
	(DW_EL15, = 175, "meta of DW_EL15"),
	(DW_EL16, = 206, "meta of DW_EL16"),
	(DW_EL17, = 239, "meta of DW_EL17"),
	(DW_EL18, = 274, "meta of DW_EL18"),
	(DW_EL19, = 311, "meta of DW_EL19"),
	(DW_EL20, = 350, "meta of DW_EL20"),
	(DW_EL21, = 391, "meta of DW_EL21"),
	(DW_EL22, = 434, "meta of DW_EL22"),
	(DW_EL23, = 479, "meta of DW_EL23"),
	(DW_EL24, = 526, "meta of DW_EL24"),
	(DW_EL25, = 575, "meta of DW_EL25"),
	(DW_EL26, = 626, "meta of DW_EL26"),
	(DW_EL27, = 679, "meta of DW_EL27"),
	(DW_EL28, = 734, "meta of DW_EL28"),
	(DW_EL29, = 791, "meta of DW_EL29"),
	(DW_EL30, = 850, "meta of DW_EL30"),
	(DW_EL31, = 911, "meta of DW_EL31"),
	(DW_EL32, = 974, "meta of DW_EL32"),
	(DW_EL33, = 1039, "meta of DW_EL33"),
	(DW_EL34, = 1106, "meta of DW_EL34"),
	(DW_EL35, = 1175, "meta of DW_EL35"),
	(DW_EL36, = 1246, "meta of DW_EL36"),
	(DW_EL37, = 1319, "meta of DW_EL37"),
	(DW_EL38, = 1394, "meta of DW_EL38"),
	(DW_EL39, = 1471, "meta of DW_EL39"),
	(DW_EL40, = 1550, "meta of DW_EL40"),
	(DW_EL41, = 1631, "meta of DW_EL41"),
	(DW_EL42, = 1714, "meta of DW_EL42"),
	(DW_EL43, = 1799, "meta of DW_EL43"),
	(DW_EL44, = 1886, "meta of DW_EL44"),
	(DW_EL45, = 1975, "meta of DW_EL45"),
	(DW_EL46, = 2066, "meta of DW_EL46"),
	(DW_EL47, = 2159, "meta of DW_EL47"),
	(DW_EL48, = 2254, "meta of DW_EL48"),
	(DW_EL49, = 2351, "meta of DW_EL49"),
	(DW_EL50, = 2450, "meta of DW_EL50"),
	(DW_EL51, = 2551, "meta of DW_EL51"),
	(DW_EL52, = 2654, "meta of DW_EL52"),
	(DW_EL53, = 2759, "meta of DW_EL53"),
	(DW_EL54, = 2866, "meta of DW_EL54"),
	(DW_EL55, = 2975, "meta of DW_EL55"),
	(DW_EL56, = 3086, "meta of DW_EL56"),
	(DW_EL57, = 3199, "meta of DW_EL57"),
	(DW_EL58, = 3314, "meta of DW_EL58"),
	(DW_EL59, = 3431, "meta of DW_EL59"),
	(DW_EL60, = 3550, "meta of DW_EL60"),
	(DW_EL61, = 3671, "meta of DW_EL61"),
	(DW_EL62, = 3794, "meta of DW_EL62"),
	(DW_EL63, = 3919, "meta of DW_EL63"),
	(DW_EL64, = 4046, "meta of DW_EL64"),
	(DW_EL65, = 4175, "meta of DW_EL65"),
	(DW_EL66, = 4306, "meta of DW_EL66"),
	(DW_EL67, = 4439, "meta of DW_EL67"),
	(DW_EL68, = 4574, "meta of DW_EL68"),
	(DW_EL69, = 4711, "meta of DW_EL69"),
	(DW_EL70, = 4850, "meta of DW_EL70"),
	(DW_EL71, = 4991, "meta of DW_EL71"),
	(DW_EL72, = 5134, "meta of DW_EL72"),
	(DW_EL73, = 5279, "meta of DW_EL73"),
	(DW_EL74, = 5426, "meta of DW_EL74"),
	(DW_EL75, = 5575, "meta of DW_EL75"),
	(DW_EL76, = 5726, "meta of DW_EL76"),
	(DW_EL77, = 5879, "meta of DW_EL77"),
	(DW_EL78, = 6034, "meta of DW_EL78"),
	(DW_EL79, = 6191, "meta of DW_EL79"),
	(DW_EL80, = 6350, "meta of DW_EL80"),
	(DW_EL81, = 6511, "meta of DW_EL81"),
	(DW_EL82, = 6674, "meta of DW_EL82"),
	(DW_EL83, = 6839, "meta of DW_EL83"),
	(DW_EL84, = 7006, "meta of DW_EL84"),
	(DW_EL85, = 7175, "meta of DW_EL85"),
	(DW_EL86, = 7346, "meta of DW_EL86"),
	(DW_EL87, = 7519, "meta of DW_EL87"),
	(DW_EL88, = 7694, "meta of DW_EL88"),
	(DW_EL89, = 7871, "meta of DW_EL89"),
	(DW_EL90, = 8050, "meta of DW_EL90"),
	(DW_EL91, = 8231, "meta of DW_EL91"),
	(DW_EL92, = 8414, "meta of DW_EL92"),
	(DW_EL93, = 8599, "meta of DW_EL93"),
	(DW_EL94, = 8786, "meta of DW_EL94"),
	(DW_EL95, = 8975, "meta of DW_EL95"),
	(DW_EL96, = 9166, "meta of DW_EL96"),
	(DW_EL97, = 9359, "meta of DW_EL97"),
	(DW_EL98, = 9554, "meta of DW_EL98"),
	(DW_EL99, = 9751, "meta of DW_EL99"),
	(DW_EL100, = 9950, "meta of DW_EL100"),
	(DW_EL101, = 10151, "meta of DW_EL101"),
	(DW_EL102, = 10354, "meta of DW_EL102"),
	(DW_EL103, = 10559, "meta of DW_EL103"),
	(DW_EL104, = 10766, "meta of DW_EL104"),
	(DW_EL105, = 10975, "meta of DW_EL105"),
	(DW_EL106, = 11186, "meta of DW_EL106"),
	(DW_EL107, = 11399, "meta of DW_EL107"),
	(DW_EL108, = 11614, "meta of DW_EL108"),
	(DW_EL109, = 11831, "meta of DW_EL109"),
	(DW_EL110, = 12050, "meta of DW_EL110"),
	(DW_EL111, = 12271, "meta of DW_EL111"),
	(DW_EL112, = 12494, "meta of DW_EL112"),
	(DW_EL113, = 12719, "meta of DW_EL113"),
	(DW_EL114, = 12946, "meta of DW_EL114"),
	(DW_EL115, = 13175, "meta of DW_EL115"),
	(DW_EL116, = 13406, "meta of DW_EL116"),
	(DW_EL117, = 13639, "meta of DW_EL117"),
	(DW_EL118, = 13874, "meta of DW_EL118"),
	(DW_EL119, = 14111, "meta of DW_EL119"),
	(DW_EL120, = 14350, "meta of DW_EL120"),
	(DW_EL121, = 14591, "meta of DW_EL121"),
	(DW_EL122, = 14834, "meta of DW_EL122"),
	(DW_EL123, = 15079, "meta of DW_EL123"),
	(DW_EL124, = 15326, "meta of DW_EL124"),
	(DW_EL125, = 15575, "meta of DW_EL125"),
	(DW_EL126, = 15826, "meta of DW_EL126"),
	(DW_EL127, = 16079, "meta of DW_EL127"),
	(DW_EL128, = 16334, "meta of DW_EL128"),
	(DW_EL129, = 16591, "meta of DW_EL129"),
	(DW_EL130, = 16850, "meta of DW_EL130"),
	(DW_EL131, = 17111, "meta of DW_EL131"),
	(DW_EL132, = 17374, "meta of DW_EL132"),
	(DW_EL133, = 17639, "meta of DW_EL133"),
	(DW_EL134, = 17906, "meta of DW_EL134"),
	(DW_EL135, = 18175, "meta of DW_EL135"),
	(DW_EL136, = 18446, "meta of DW_EL136"),
	(DW_EL137, = 18719, "meta of DW_EL137"),
	(DW_EL138, = 18994, "meta of DW_EL138"),
	(DW_EL139, = 19271, "meta of DW_EL139"),
	(DW_EL140, = 19550, "meta of DW_EL140"),
	(DW_EL141, = 19831, "meta of DW_EL141"),
	(DW_EL142, = 20114, "meta of DW_EL142"),
	(DW_EL143, = 20399, "meta of DW_EL143"),
	(DW_EL144, = 20686, "meta of DW_EL144"),
	(DW_EL145, = 20975, "meta of DW_EL145"),
	(DW_EL146, = 21266, "meta of DW_EL146"),
	(DW_EL147, = 21559, "meta of DW_EL147"),
	(DW_EL148, = 21854, "meta of DW_EL148"),
	(DW_EL149, = 22151, "meta of DW_EL149"),
	(DW_EL150, = 22450, "meta of DW_EL150"),
	(DW_EL151, = 22751, "meta of DW_EL151"),
	(DW_EL152, = 23054, "meta of DW_EL152"),
	(DW_EL153, = 23359, "meta of DW_EL153"),
	(DW_EL154, = 23666, "meta of DW_EL154"),
	(DW_EL155, = 23975, "meta of DW_EL155"),
	(DW_EL156, = 24286, "meta of DW_EL156"),
	(DW_EL157, = 24599, "meta of DW_EL157"),
	(DW_EL158, = 24914, "meta of DW_EL158"),
	(DW_EL159, = 25231, "meta of DW_EL159"),
	(DW_EL160, = 25550, "meta of DW_EL160"),
	(DW_EL161, = 25871, "meta of DW_EL161"),
	(DW_EL162, = 26194, "meta of DW_EL162"),
	(DW_EL163, = 26519, "meta of DW_EL163"),
	(DW_EL164, = 26846, "meta of DW_EL164"),
	(DW_EL165, = 27175, "meta of DW_EL165"),
	(DW_EL166, = 27506, "meta of DW_EL166"),
	(DW_EL167, = 27839, "meta of DW_EL167"),
	(DW_EL168, = 28174, "meta of DW_EL168"),
	(DW_EL169, = 28511, "meta of DW_EL169"),
	(DW_EL170, = 28850, "meta of DW_EL170"),
	(DW_EL171, = 29191, "meta of DW_EL171"),
	(DW_EL172, = 29534, "meta of DW_EL172"),
	(DW_EL173, = 29879, "meta of DW_EL173"),
	(DW_EL174, = 30226, "meta of DW_EL174"),
	(DW_EL175, = 30575, "meta of DW_EL175"),
	(DW_EL176, = 30926, "meta of DW_EL176"),
	(DW_EL177, = 31279, "meta of DW_EL177"),
	(DW_EL178, = 31634, "meta of DW_EL178"),
	(DW_EL179, = 31991, "meta of DW_EL179"),
	(DW_EL180, = 32350, "meta of DW_EL180"),
	(DW_EL181, = 32711, "meta of DW_EL181"),
	(DW_EL182, = 33074, "meta of DW_EL182"),
	(DW_EL183, = 33439, "meta of DW_EL183"),
	(DW_EL184, = 33806, "meta of DW_EL184"),
	(DW_EL185, = 34175, "meta of DW_EL185"),
	(DW_EL186, = 34546, "meta of DW_EL186"),
	(DW_EL187, = 34919, "meta of DW_EL187"),
	(DW_EL188, = 35294, "meta of DW_EL188"),
	(DW_EL189, = 35671, "meta of DW_EL189"),
	(DW_EL190, = 36050, "meta of DW_EL190"),
	(DW_EL191, = 36431, "meta of DW_EL191"),
	(DW_EL192, = 36814, "meta of DW_EL192"),
	(DW_EL193, = 37199, "meta of DW_EL193"),
	(DW_EL194, = 37586, "meta of DW_EL194"),
	(DW_EL195, = 37975, "meta of DW_EL195"),
	(DW_EL196, = 38366, "meta of DW_EL196"),
	(DW_EL197, = 38759, "meta of DW_EL197"),
	(DW_EL198, = 39154, "meta of DW_EL198"),
	(DW_EL199, = 39551, "meta of DW_EL199"),
	(DW_EL200, = 39950, "meta of DW_EL200"),
	(DW_EL201, = 40351, "meta of DW_EL201"),
	(DW_EL202, = 40754, "meta of DW_EL202"),
	(DW_EL203, = 41159, "meta of DW_EL203"),
	(DW_EL204, = 41566, "meta of DW_EL204"),
	(DW_EL205, = 41975, "meta of DW_EL205"),
	(DW_EL206, = 42386, "meta of DW_EL206"),
	(DW_EL207, = 42799, "meta of DW_EL207"),
	(DW_EL208, = 43214, "meta of DW_EL208"),
	(DW_EL209, = 43631, "meta of DW_EL209"),
	(DW_EL210, = 44050, "meta of DW_EL210"),
	(DW_EL211, = 44471, "meta of DW_EL211"),
	(DW_EL212, = 44894, "meta of DW_EL212"),
	(DW_EL213, = 45319, "meta of DW_EL213"),
	(DW_EL214, = 45746, "meta of DW_EL214"),
	(DW_EL215, = 46175, "meta of DW_EL215"),
	(DW_EL216, = 46606, "meta of DW_EL216"),
	(DW_EL217, = 47039, "meta of DW_EL217"),
	(DW_EL218, = 47474, "meta of DW_EL218"),
	(DW_EL219, = 47911, "meta of DW_EL219"),
	(DW_EL220, = 48350, "meta of DW_EL220"),
	(DW_EL221, = 48791, "meta of DW_EL221"),
	(DW_EL222, = 49234, "meta of DW_EL222"),
	(DW_EL223, = 49679, "meta of DW_EL223"),
	(DW_EL224, = 50126, "meta of DW_EL224"),
	(DW_EL225, = 50575, "meta of DW_EL225"),
	(DW_EL226, = 51026, "meta of DW_EL226"),
	(DW_EL227, = 51479, "meta of DW_EL227"),
	(DW_EL228, = 51934, "meta of DW_EL228"),
	(DW_EL229, = 52391, "meta of DW_EL229"),
	(DW_EL230, = 52850, "meta of DW_EL230"),
	(DW_EL231, = 53311, "meta of DW_EL231"),
	(DW_EL232, = 53774, "meta of DW_EL232"),
	(DW_EL233, = 54239, "meta of DW_EL233"),
	(DW_EL234, = 54706, "meta of DW_EL234"),
	(DW_EL235, = 55175, "meta of DW_EL235"),
	(DW_EL236, = 55646, "meta of DW_EL236"),
	(DW_EL237, = 56119, "meta of DW_EL237"),
	(DW_EL238, = 56594, "meta of DW_EL238"),
	(DW_EL239, = 57071, "meta of DW_EL239"),
	(DW_EL240, = 57550, "meta of DW_EL240"),
	(DW_EL241, = 58031, "meta of DW_EL241"),
	(DW_EL242, = 58514, "meta of DW_EL242"),
	(DW_EL243, = 58999, "meta of DW_EL243"),
	(DW_EL244, = 59486, "meta of DW_EL244"),
	(DW_EL245, = 59975, "meta of DW_EL245"),
	(DW_EL246, = 60466, "meta of DW_EL246"),
	(DW_EL247, = 60959, "meta of DW_EL247"),
	(DW_EL248, = 61454, "meta of DW_EL248"),
	(DW_EL249, = 61951, "meta of DW_EL249"),
	)

struct dw_ext { char pad; double d; int a[2][3]; unsigned bf : 11; struct dw_ext * next; const char * s; int (*cb) (int); };
typedef union { int i; float f; char text[16]; } dw_uext_t;
typedef enum { DW_X0 = 4, DW_X1 = -9 } dw_xenum_t;
#undef MR_MODE
#define MR_MODE DESC
TYPEDEF_STRUCT (struct dw_ext, (char, pad), (double, d), (int, a, [2][3], "meta of a"), (unsigned, bf, : 11), (struct dw_ext *, next), (const char *, s), (int, cb, (int)))
TYPEDEF_UNION (dw_uext_t, i, f, (char, text, [16]))
TYPEDEF_ENUM (dw_xenum_t, DW_X0, (DW_X1, , "meta of DW_X1"))
#undef MR_MODE

dw_plain_t * dw_keep_0;
dw_note_t * dw_keep_1;
dw_res_t * dw_keep_2;
dw_const_t * dw_keep_3;
dw_ptr_t * dw_keep_4;
dw_cptr_t * dw_keep_5;
dw_arr_t * dw_keep_6;
dw_arr2_t * dw_keep_7;
dw_parr_t * dw_keep_8;
dw_array_t * dw_keep_9;
dw_bf_t * dw_keep_10;
dw_bf2_t * dw_keep_11;
dw_bfp_t * dw_keep_12;
dw_bitfield_t * dw_keep_13;
dw_void_t * dw_keep_14;
dw_enum_t * dw_keep_15;
dw_uenum_t * dw_keep_16;
dw_lenum_t * dw_keep_17;
dw_ulenum_t * dw_keep_18;
dw_penum_t * dw_keep_19;
dw_psenum_t * dw_keep_20;
dw_pwenum_t * dw_keep_21;
dw_self_t * dw_keep_22;
dw_untyped_t * dw_keep_23;
dw_short_t * dw_keep_24;
dw_union_t * dw_keep_25;
dw_anon_t * dw_keep_26;
dw_nanon_t * dw_keep_27;
dw_anon_attr_t * dw_keep_28;
dw_func_t * dw_keep_29;
dw_fn0_t * dw_keep_30;
dw_fn1_t * dw_keep_31;
dw_fn2_t * dw_keep_32;
dw_fn3_t * dw_keep_33;
dw_usefn_t * dw_keep_34;
dw_packed_t * dw_keep_35;
dw_aligned_t * dw_keep_36;
dw_empty_tail_t * dw_keep_37;
dw_long_t * dw_keep_38;
dw_elong_t * dw_keep_39;
struct dw_ext * dw_keep_40;
dw_uext_t * dw_keep_41;
dw_xenum_t * dw_keep_42;
