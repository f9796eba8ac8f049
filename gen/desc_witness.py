"""writes witness/desc_witness.c: one declaration per macro form x type, whose
notes and resources follow a naming convention that the analysis can check"""
import os
B = [('char', 'c'), ('bool', 'b'), ('signed char', 'sc'), ('unsigned char', 'uc'), ('short', 'h'), ('unsigned short', 'uh'), ('int', 'i'), ('unsigned int', 'ui'),
     ('long', 'l'), ('unsigned long', 'ul'), ('long long', 'll'), ('unsigned long long', 'ull'), ('int8_t', 'i8'), ('uint8_t', 'u8'), ('int16_t', 'i16'),
     ('uint16_t', 'u16'), ('int32_t', 'i32'), ('uint32_t', 'u32'), ('int64_t', 'i64'), ('uint64_t', 'u64'), ('size_t', 'sz'), ('ssize_t', 'ssz'),
     ('mr_int128_t', 'i128'), ('mr_uint128_t', 'u128'), ('float', 'f'), ('double', 'd'), ('long double', 'ld'), ('complex float', 'cf'), ('complex double', 'cd'),
     ('complex long double', 'cld'), ('long_double_t', 'ldt'), ('string_t', 's')]
INTS = [b for b in B if b[1] not in ('f', 'd', 'ld', 'cf', 'cd', 'cld', 'ldt', 's', 'i128', 'u128')]
o = ['/* GENERATED by gen/desc_witness.py: declares types through every declaration macro of',
     '   metaresc.h, so that the descriptors the macros produce can be compared with the layout',
     '   in the debug information.  It is compiled to IR and never linked or run. */',
     '#include <mr_config.h>', '#include <complex.h>', '#include <metaresc.h>', '']
types = []
expect = {}


def one(text):
    import re
    mm = re.search(r'(?<!\{ )"[^"]*"', text)
    rr = re.search(r'\{ ("res of \w+") \}, "string"(?:, (\d+))?', text)
    return [mm.group(0)[1:-1] if mm else '', rr.group(1)[1:-1] if rr else '', int(rr.group(2)) if rr and rr.group(2) else 0]


def note(name, fields, attr=''):
    fs = []
    for f in fields:
        e = one(f) if not f.startswith('END_ANON') else [(f.split('"') + [''])[1] if '"' in f else '', '', 0]
        fs.append(e)
    expect[name] = {'td': one(attr), 'f': fs}


def struct(name, fields, kind='STRUCT', attr='', raw=False):
    o.append('TYPEDEF_%s (%s, %s' % (kind, name, ('ATTRIBUTES (%s),' % attr) if attr else ''))
    for f in fields:
        o.append('\t%s,' % f)
    o.append('\t)')
    o.append('')
    types.append(name)
    note(name, fields, attr)


def m(n):
    return '"meta of %s"' % n


def r(n):
    return '%s, { "res of %s" }, "string"' % (m(n), n)


def rs(n):
    return '%s, { "res of %s" }, "string", 24' % (m(n), n)


# every basic type: plain, qualified, pointed to; with and without notes and resources
struct('dw_plain_t', ['(%s, p_%s)' % b for b in B])
struct('dw_note_t', ['(%s, n_%s, , %s)' % (t, n, m('n_' + n)) for t, n in B], attr=', "meta of dw_note_t"')
struct('dw_res_t', ['(%s, r_%s, , %s)' % (t, n, (r if k % 2 else rs)('r_' + n)) for k, (t, n) in enumerate(B)], attr=', "meta of dw_res_t", { "res of dw_res_t" }, "string", 40')
struct('dw_const_t', ['(%s %s, q_%s)' % (q, t, n + q[0]) for t, n in B for q in ('const', 'volatile') if n not in ('ldt', 's')])
struct('dw_ptr_t', ['(%s *, pp_%s)' % b for b in B] + ['(void *, pp_void)', '(%s **, pp2_%s)' % B[6]])
struct('dw_cptr_t', ['(%s%s *, cp_%s%d, , %s)' % (t, ' ' + q, n, k, m('cp_%s%d' % (n, k))) for t, n in B if n not in ('cf', 'cd', 'cld') for k, q in enumerate(('const', 'volatile', 'const volatile'))])
# arrays of one to four dimensions
struct('dw_arr_t', ['(%s, a1_%s, [3])' % b for b in B] + ['(%s, a1n_%s, [1], %s)' % (t, n, m('a1n_' + n)) for t, n in B[:8]])
struct('dw_arr2_t', ['(%s, a2_%s, [3][5], %s)' % (t, n, r('a2_' + n)) for t, n in B[:20]] + ['(%s, a3_%s, [2][3][5])' % b for b in B[4:14]] + ['(%s, a4_%s, [2][3][5][7])' % b for b in B[4:14]] + ['(%s, a21_%s, [1][4])' % b for b in B[4:8]] + ['(%s, a41_%s, [1][1][1][1])' % b for b in B[4:8]])
struct('dw_parr_t', ['(%s *, pa1_%s, [3])' % b for b in B[:20]] + ['(const %s *, pa2_%s, [3][2])' % b for b in B[:20]])
struct('dw_array_t', ['ARRAY (%s, x1_%s, [3])' % b for b in B[:12]] + ['ARRAY (%s, x2_%s, [3][4], %s)' % (t, n, r('x2_' + n)) for t, n in B[:12]] + ['ARRAY (%s, x4_%s, [2][3][4][5])' % b for b in B[4:8]])
# bit-fields
struct('dw_bf_t', ['(%s, bf1_%s, : 1)' % b for b in INTS] + ['(%s, bf3_%s, : 3, %s)' % (t, n, r('bf3_' + n)) for t, n in INTS if n != 'b'] + ['(%s, bf7_%s, : 7, %s)' % (t, n, m('bf7_' + n)) for t, n in INTS if n != 'b'])
struct('dw_bf2_t', ['(int, x)', '(uint64_t, w60, : 60)', '(uint64_t, w61, : 61)', '(int64_t, w33, : 33)', '(uint8_t, w8, : 8)', '(uint16_t, w16, : 16)', '(int32_t, w32, : 32)', '(int64_t, w64, : 64)', '(bool, wb, : 1)', '(char, y)'])
struct('dw_bfp_t', ['(uint8_t, k5, : 5)', '(uint32_t, k17, : 17)', '(uint64_t, k62, : 62)', '(int16_t, k9, : 9)', '(char, z)'], attr='__attribute__ ((packed))')
struct('dw_bitfield_t', ['BITFIELD (%s, y_%s, : %d, %s)' % (t, n, 1 if n == 'b' else 5, r('y_' + n)) for t, n in INTS] + ['BITFIELD (%s, yy_%s, : %d)' % (t, n, 1 if n == 'b' else 6) for t, n in INTS])
# excluded members
struct('dw_void_t', ['VOID (%s, v_%s)' % b for b in B] + ['VOID (%s, vn_%s, , %s)' % (t, n, r('vn_' + n)) for t, n in B] + ['VOID (%s, va_%s, [4])' % b for b in B[:8]] + ['VOID (%s, vb_%s, : 2)' % b for b in INTS if b[1] != 'b'] + ['VOID (int, vf1, (int, char *))', 'VOID (void, vf2, (void), %s)' % m('vf2'), 'VOID (dw_plain_t, vs)', 'VOID (dw_plain_t *, vsp)'])
# other declared types and their own type
struct('dw_enum_t', ['DW_E0', '(DW_E1, = 5)', '(DW_E2, , %s)' % m('DW_E2'), '(DW_E3, = -7, %s)' % m('DW_E3'), '(DW_E4, = 0x7fffffff, %s)' % r('DW_E4'), '(DW_E5, = 3, %s)' % rs('DW_E5')], 'ENUM', attr=', "meta of dw_enum_t", { "res of dw_enum_t" }, "string"')
struct('dw_uenum_t', ['(DW_U0, = 1)', '(DW_U1, = 0x80000000u)', '(DW_U2, = 0xffffffffu)', 'DW_U9 = 77' if False else '(DW_U3, = 12)'], 'ENUM')
struct('dw_lenum_t', ['(DW_L0, = -1L)', '(DW_L1, = 0x123456789abcdefL)', '(DW_L2, = (-0x7fffffffffffffffL - 1))', 'DW_L3'], 'ENUM')
struct('dw_ulenum_t', ['(DW_UL0, = 0xffffffffffffffffUL)', '(DW_UL1, = 0x8000000000000000UL)', '(DW_UL2, = 2)'], 'ENUM')
struct('dw_penum_t', ['(DW_P0, = 0)', '(DW_P1, = 200)', 'DW_P2'], 'ENUM', attr='__attribute__ ((packed))')
struct('dw_psenum_t', ['(DW_PS0, = -100)', '(DW_PS1, = 100)'], 'ENUM', attr='__attribute__ ((packed)), "meta of dw_psenum_t"')
struct('dw_pwenum_t', ['(DW_PW0, = -100)', '(DW_PW1, = 30000)'], 'ENUM', attr='__attribute__ ((packed))')
struct('dw_self_t', ['(dw_self_t *, next)', '(const dw_self_t *, cnext)', '(volatile dw_self_t *, vnext, , %s)' % m('vnext'), '(struct dw_self_t *, snext)', '(dw_plain_t *, pl)', '(dw_note_t, note)', '(dw_enum_t, en)', '(dw_penum_t, pen)', '(dw_enum_t *, enp)', '(dw_plain_t, pls, [2])', '(dw_enum_t, ens, [3][2])', '(dw_lenum_t, len, : 40)', '(dw_enum_t, ebf, : 4)'])
struct('dw_untyped_t', ['(int, first)', '(, second)' if False else '(long, second)'])
# short forms
struct('dw_short_t', ['int si', 'unsigned long long int slli' if False else 'unsigned int sui', 'long slong', 'char sc', 'double sd', 'const char scc', 'volatile int svi', 'uint8_t su8', 'int64_t s64', 'size_t ssz', 'float sf', 'long double sld', 'string_t sstr', 'bool sb', 'short ssh', 'signed char ssc'])
# unions
struct('dw_union_t', ['(%s, u_%s)' % b for b in B] + ['(int, u_arr, [7])', '(uint32_t, u_bf, : 9)'], 'UNION', attr=', "meta of dw_union_t"')
struct('dw_anon_t', ['(int, before)', 'ANON_UNION ()', '(int, ai)', '(double, ad, , %s)' % m('ad'), '(char, aa, [24])', 'END_ANON_UNION ("meta of anon")', '(char, after)', '(dw_union_t, un, , "before")', '(void *, vp, , %s)' % m('vp')])
struct('dw_nanon_t', ['(char *, tag)', '(int, before)', 'ANON_UNION (named)', '(int, ni)', '(double, nd)', 'ANON_UNION ()', '(short, deep)', '(char *, deeps)', 'END_ANON_UNION ("before")', 'END_ANON_UNION ("tag")', '(short, after)'])
struct('dw_anon_attr_t', ['(char, c0)', 'ANON_UNION (, __attribute__ ((packed)))', '(int, k1)', '(long, k2)', 'END_ANON_UNION ("c0")', '(int, k3)'], attr='__attribute__ ((packed)), "meta of dw_anon_attr_t"')
# functions
struct('dw_func_t', ['(int, fn0, (void))', '(void, fn1, (int))', '(char *, fn2, (const char *, volatile int *))', '(double, fn3, (dw_plain_t *, dw_enum_t, bool, float), %s)' % m('fn3'), '(dw_plain_t *, fn4, (long double, unsigned char))', 'FUNC (uint64_t, fn5, (int8_t, uint16_t, string_t))', '(dw_enum_t, fn6, (dw_note_t, complex double))'])
o.append('TYPEDEF_FUNC (int, dw_fn0_t, (void))')
o.append('TYPEDEF_FUNC (void, dw_fn1_t, (int, char *, const dw_plain_t *), ATTRIBUTES ( , "meta of dw_fn1_t", { "res of dw_fn1_t" }, "string"))')
o.append('TYPEDEF_FUNC (dw_plain_t *, dw_fn2_t, (dw_enum_t, unsigned long, long double, dw_fn0_t))')
o.append('TYPEDEF_FUNC (string_t, dw_fn3_t, (uint8_t, int16_t, float, bool, char, complex float))')
o.append('')
types += ['dw_fn0_t', 'dw_fn1_t', 'dw_fn2_t', 'dw_fn3_t']
note('dw_fn0_t', [])
note('dw_fn1_t', [], '"meta of dw_fn1_t", { "res of dw_fn1_t" }, "string"')
note('dw_fn2_t', [])
note('dw_fn3_t', [])
struct('dw_usefn_t', ['(dw_fn0_t, f0)', '(dw_fn1_t, f1, , %s)' % m('f1'), '(dw_fn2_t *, f2)', '(dw_fn3_t, f3, [2])'])
# attributes
struct('dw_packed_t', ['(char, c)', '(int, i)', '(char, c2)', '(long double, ld)', '(short, h, [3])', '(char *, s)'], attr='__attribute__ ((packed))')
struct('dw_aligned_t', ['(char, c)', '(int, i)', '(char, last)'], attr='__attribute__ ((aligned (64))), "meta of dw_aligned_t"')
struct('dw_empty_tail_t', ['(int, n)', '(int, tail, [0])'])
# long lists
struct('dw_long_t', ['(%s, f%d, , %s)' % (B[k % len(B)][0], k, m('f%d' % k)) for k in range(150)])
struct('dw_elong_t', ['(DW_EL%d, = %d, %s)' % (k, k * k - 50, m('DW_EL%d' % k)) for k in range(250)], 'ENUM')
# types of another origin, described afterwards
o.append('struct dw_ext { char pad; double d; int a[2][3]; unsigned bf : 11; struct dw_ext * next; const char * s; int (*cb) (int); };')
o.append('typedef union { int i; float f; char text[16]; } dw_uext_t;')
o.append('typedef enum { DW_X0 = 4, DW_X1 = -9 } dw_xenum_t;')
o.append('#undef MR_MODE')
o.append('#define MR_MODE DESC')
o.append('TYPEDEF_STRUCT (struct dw_ext, (char, pad), (double, d), (int, a, [2][3], %s), (unsigned, bf, : 11), (struct dw_ext *, next), (const char *, s), (int, cb, (int)))' % m('a'))
o.append('TYPEDEF_UNION (dw_uext_t, i, f, (char, text, [16]))')
o.append('TYPEDEF_ENUM (dw_xenum_t, DW_X0, (DW_X1, , %s))' % m('DW_X1'))
o.append('#undef MR_MODE')
types += ['struct dw_ext', 'dw_uext_t', 'dw_xenum_t']
o.append('')
for k, t in enumerate(types):
    o.append('%s * dw_keep_%d;' % (t, k))
note('struct dw_ext', ['', '', m('a'), '', '', '', ''])
note('dw_uext_t', [''] * 3)
note('dw_xenum_t', ['', m('DW_X1')])
import json
json.dump(expect, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'witness', 'desc_expect.json'), 'w'))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'witness', 'desc_witness.c'), 'w').write('\n'.join(o) + '\n')
