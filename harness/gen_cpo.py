"""Writes cpo.cpp: for every customisation point, types that provide different subsets of the implementation levels, and entry functions."""

SS = ('const obake::symbol_set &', 'ss')
SI = ('const obake::symbol_idx_set &', 'si')
IDX = ('const obake::symbol_idx &', 'ix')
SM = ('const obake::symbol_map<Y> &', 'sm')
SXM = ('const obake::symbol_idx_map<Y> &', 'sm')
STR = ('const std::string &', 's')
INS = ('const obake::symbol_idx_map<obake::symbol_set> &', 'im')
OS = ('std::ostream &', 'os')
V = ('std::vector<int> &', 'v')

# name, header, style (V: variable template, G: tag), internal level, default level, arguments ('T' = the object, 'Y'/'Z' forwarded extras), result, trait, concept
# Result '@' is the type of the object.
C = [
    ('cf_stream_insert', 'cf/cf_stream_insert', 'V', 1, 1, [OS, 'T'], 'void', 'is_stream_insertable_cf_v', 'StreamInsertableCf'),
    ('byte_size', 'byte_size', 'V', 1, 1, ['T'], 'std::size_t', 'is_size_measurable_v', 'SizeMeasurable'),
    ('hash', 'hash', 'V', 0, 1, ['T'], 'std::size_t', 'is_hashable_v', 'Hashable'),
    ('key_is_compatible', 'key/key_is_compatible', 'V', 0, 0, ['T', SS], 'bool', 'is_compatibility_testable_key_v', 'CompatibilityTestableKey'),
    ('key_degree', 'key/key_degree', 'V', 0, 0, ['T', SS], 'R', 'is_key_with_degree_v', 'KeyWithDegree'),
    ('key_p_degree', 'key/key_p_degree', 'V', 0, 0, ['T', SI, SS], 'R', 'is_key_with_p_degree_v', 'KeyWithPDegree'),
    ('key_evaluate', 'key/key_evaluate', 'VM', 0, 0, ['T', SXM, SS], 'R', 'is_evaluable_key_v', 'EvaluableKey'),
    ('key_is_zero', 'key/key_is_zero', 'V', 0, 0, ['T', SS], 'bool', 'is_zero_testable_key_v', 'ZeroTestableKey'),
    ('key_is_one', 'key/key_is_one', 'V', 0, 0, ['T', SS], 'bool', 'is_one_testable_key_v', 'OneTestableKey'),
    ('key_stream_insert', 'key/key_stream_insert', 'V', 0, 0, [OS, 'T', SS], 'void', 'is_stream_insertable_key_v', 'StreamInsertableKey'),
    ('key_tex_stream_insert', 'key/key_tex_stream_insert', 'G', 0, 1, [OS, 'T', SS], 'void', 'is_tex_stream_insertable_key_v', 'tex_stream_insertable_key'),
    ('key_trim', 'key/key_trim', 'V', 0, 0, ['T', SI, SS], '@', 'is_trimmable_key_v', 'TrimmableKey'),
    ('key_trim_identify', 'key/key_trim_identify', 'V', 0, 0, [V, 'T', SS], 'void', 'is_trim_identifiable_key_v', 'TrimIdentifiableKey'),
    ('key_merge_symbols', 'key/key_merge_symbols', 'V', 0, 0, ['T', INS, SS], '@', 'is_symbols_mergeable_key_v', 'SymbolsMergeableKey'),
    ('degree', 'math/degree', 'V', 1, 0, ['T'], 'R', 'is_with_degree_v', 'WithDegree'),
    ('p_degree', 'math/p_degree', 'V', 1, 0, ['T', SS], 'R', 'is_with_p_degree_v', 'WithPDegree'),
    ('evaluate', 'math/evaluate', 'VM', 1, 1, ['T', SM], 'R', 'is_evaluable_v', 'Evaluable'),
    ('subs', 'math/subs', 'G', 0, 1, ['T', SM], 'R', 'is_substitutable_v', 'Substitutable'),
    ('trim', 'math/trim', 'V', 1, 1, ['T'], '@', 'is_trimmable_v', 'Trimmable'),
    ('diff', 'math/diff', 'V', 0, 0, ['T', STR], 'R', 'is_differentiable_v', 'Differentiable'),
    ('integrate', 'math/integrate', 'V', 0, 0, ['T', STR], 'R', 'is_integrable_v', 'Integrable'),
    ('truncate_degree', 'math/truncate_degree', 'V2', 0, 0, ['T', 'Y'], 'void', 'is_degree_truncatable_v', 'DegreeTruncatable'),
    ('truncate_p_degree', 'math/truncate_p_degree', 'V2', 0, 0, ['T', 'Y', SS], 'void', 'is_p_degree_truncatable_v', 'PDegreeTruncatable'),
    ('fma3', 'math/fma3', 'V3', 0, 0, ['T', 'Y', 'Z'], 'void', 'is_mult_addable_v', 'MultAddable'),
    ('is_zero', 'math/is_zero', 'G', 1, 1, ['T'], 'bool', 'is_zero_testable_v', 'ZeroTestable'),
    ('negate', 'math/negate', 'G', 1, 1, ['T'], 'void', 'is_negatable_v', 'Negatable'),
    ('pow', 'math/pow', 'G', 1, 0, ['T', 'Y'], 'R', 'is_exponentiable_v', 'Exponentiable'),
    ('safe_convert', 'math/safe_convert', 'G', 0, 1, ['T', 'Y'], 'bool', None, None),
    ('tex_stream_insert', 'tex_stream_insert', 'G', 1, 1, [OS, 'T'], 'void', 'is_tex_stream_insertable_v', 'tex_stream_insertable'),
    ('cf_tex_stream_insert', 'cf/cf_tex_stream_insert', 'G', 1, 1, [OS, 'T'], 'void', 'is_tex_stream_insertable_cf_v', 'tex_stream_insertable_cf'),
    ('monomial_mul', 'polynomials/monomial_mul', 'V3', 0, 0, ['T', 'Y', 'Z', SS], 'void', 'is_multipliable_monomial_v', 'MultipliableMonomial'),
    ('monomial_pow', 'polynomials/monomial_pow', 'V2', 0, 0, ['T', 'Y', SS], '@', 'is_exponentiable_monomial_v', 'ExponentiableMonomial'),
    ('monomial_range_overflow_check', 'polynomials/monomial_range_overflow_check', 'V2', 0, 0, ['T', 'Y', SS], 'bool',
     'are_overflow_testable_monomial_ranges_v', 'OverflowTestableMonomialRanges'),
    ('monomial_diff', 'polynomials/monomial_diff', 'V', 0, 0, ['T', IDX, SS], 'std::pair<R, @>', 'is_differentiable_monomial_v', 'DifferentiableMonomial'),
    ('monomial_integrate', 'polynomials/monomial_integrate', 'V', 0, 0, ['T', IDX, SS], 'std::pair<R, @>', 'is_integrable_monomial_v', 'IntegrableMonomial'),
    ('monomial_subs', 'polynomials/monomial_subs', 'VM', 0, 0, ['T', SXM, SS], 'std::pair<R, @>', 'is_substitutable_monomial_v', 'SubstitutableMonomial'),
]

TYPES = {'E': ['ext', 'adl', 'int'], 'A': ['adl', 'int'], 'N': ['int'], 'D': [], 'Z': []}


def sig(args, ty, cat, names=True, fwd=False):
    o = []
    for a in args:
        if a == 'T':
            o.append(('const %s &x' if cat == 'c' else '%s &&x') % ty)
        elif a in ('Y', 'Z'):
            o.append(('const %s &%s' if cat == 'c' else '%s &&%s') % (a, a.lower()))
        else:
            o.append('%s%s' % a)
    return ', '.join(o)


def use(args, ty, cat):
    o = []
    for a in args:
        if a in ('T', 'Y', 'Z'):
            n = 'x' if a == 'T' else a.lower()
            o.append(n if cat == 'c' else 'std::move(%s)' % n)
        else:
            o.append(a[1])
    return ', '.join(o)


def decl(args):
    """Arguments by name (for the opaque functions, which take the object by reference)."""
    return args


def main():
    w = []
    p = w.append
    p('// Generated by gen_cpo.py.')
    for h in ('cstddef', 'ostream', 'string', 'utility', 'vector', 'functional'):
        p('#include <%s>' % h)
    p('#include <obake/symbols.hpp>\n#include <obake/type_traits.hpp>')
    for c in C:
        p('#include <obake/%s.hpp>' % c[1])
    p('namespace hxc\n{\nstruct R { int v; };\nstruct Y { Y(); Y(const Y &); Y(Y &&) noexcept; Y &operator=(const Y &); Y &operator=(Y &&) noexcept; ~Y(); };')
    p('struct Z { Z(); Z(const Z &); };')
    p('// All levels; all but the external one; internal and default ones; default only; none.')
    for t in TYPES:
        if t == 'Z':
            continue
        p('struct %s { explicit %s(int); %s(); %s(const %s &); %s(%s &&) noexcept; %s &operator=(const %s &); %s &operator=(%s &&) noexcept; '
          '%s &operator=(const Y &); %s &operator=(Y &&); %s operator-() const &; %s operator-() &&; ~%s(); char pad[%d]; };' % (
            (t,) * 16 + ({'E': 3, 'A': 5, 'N': 7, 'D': 24}[t],)))
        p('bool operator==(const %s &, const %s &);\nstd::ostream &operator<<(std::ostream &, const %s &);' % (t, t, t))
    p('}')
    for t in TYPES:
        if t != 'Z':
            p('namespace std { template <> struct hash<hxc::%s> { size_t operator()(const hxc::%s &) const; }; }' % (t, t))
    for c in C:
        name, _, style, hi, hd, args, ret = c[:7]
        levels = ['ext', 'adl'] + (['int'] if hi else [])
        p('\n// %s' % name)
        p('namespace hxc\n{')
        for t, ls in TYPES.items():
            for l in ls:
                if l not in levels:
                    continue
                rt = ret.replace('@', t)
                for cat in 'cr':
                    p('%s %s_%s_%s(%s);' % (rt, name, l, cat, sig(args, t, cat)))
        # adl
        for t in ('E', 'A'):
            rt = ret.replace('@', t)
            for cat in 'cr':
                p('inline %s %s(%s) { return %s_adl_%s(%s); }' % (rt, name, sig(args, t, cat), name, cat, use(args, t, cat)))
        for l in ('ext', 'int'):
            if l not in levels:
                continue
            own = [t for t in TYPES if l in TYPES[t]]
            if style[0] == 'V':
                p('struct %s_%s_f {' % (name, l))
                for t in own:
                    for cat in 'cr':
                        p('    %s operator()(%s) const { return %s_%s_%s(%s); }' % (ret.replace('@', t), sig(args, t, cat), name, l, cat, use(args, t, cat)))
                p('};')
        p('}')
        for l, ns in (('ext', ''), ('int', '::internal')):
            if l not in levels:
                continue
            own = [t for t in TYPES if l in TYPES[t]]
            conc = ' || '.join('obake::is_same_cvr_v<X, hxc::%s>' % t for t in own)
            if style[0] == 'V':
                n = {'V': 1, 'VM': 2, 'V2': 2, 'V3': 3}[style]
                tp = ', '.join('typename X%s' % (i or '') for i in range(n))
                ta = ', '.join('X%s' % (i or '') for i in range(n))
                p('namespace obake::customisation%s\n{\ntemplate <%s> requires(%s) inline constexpr auto %s<%s> = hxc::%s_%s_f{};\n}' % (ns, tp, conc, name, ta, name, l))
            else:
                p('namespace hxc\n{')
                for t in own:
                    for cat in 'cr':
                        p('inline %s %s(obake::customisation%s::%s_t, %s) { return %s_%s_%s(%s); }' % (
                            ret.replace('@', t), name, ns, name, sig(args, t, cat), name, l, cat, use(args, t, cat)))
                p('}')
        # entries
        p('namespace hx\n{\nusing namespace hxc;')
        for t in TYPES:
            if t == 'Z':
                continue
            lv = [l for l in TYPES[t] if l in levels] + (['def'] if hd else [])
            if not lv or name == 'key_tex_stream_insert' and t in 'ND':
                continue
            if name == 'safe_convert' and lv[0] == 'def':
                if t == 'D':
                    p('inline decltype(auto) safe_convert_D_c(D &x, const D &y) { return obake::safe_convert(x, y); }')
                continue
            if name == 'negate' and lv[0] == 'def':
                p('inline decltype(auto) %s_%s_c(%s) { return obake::%s(%s); }' % (
                    name, t, sig(args, t, 'c').replace('const %s &' % t, '%s &' % t), name, use(args, t, 'c')))
                p('inline decltype(auto) %s_%s_r(%s) { return obake::%s(%s); }' % (name, t, sig(args, t, 'r'), name, use(args, t, 'r')))
                continue
            for cat in 'cr':
                p('inline decltype(auto) %s_%s_%s(%s) { return obake::%s(%s); }' % (name, t, cat, sig(args, t, cat), name, use(args, t, cat)))
        p('}')
        # availability
        if c[7]:
            more = ''.join(', %s' % ('const Y &' if a == 'Y' else 'const Z &') for a in args if a in ('Y', 'Z'))
            if style == 'VM' or name == 'subs':
                more = ', Y'
            p('namespace hxw\n{\nusing namespace hxc;')
            for t in TYPES:
                have = any(l in levels for l in TYPES[t]) or hd
                if t == 'Z':
                    have = name in ('byte_size', 'evaluate', 'subs', 'trim')
                tt = 'Z'
                arg = 'const %s &' % t
                if name == 'negate' and t == 'D':
                    arg = 'D &'
                if name == 'key_tex_stream_insert' and t in 'ND':
                    have = False
                p('inline constexpr bool %s_%s = obake::%s<%s%s> == %s;' % (name, t, c[7], arg, more, 'true' if have else 'false'))
                p('inline constexpr bool %s_%s_concept = obake::%s<%s%s> == %s;' % (name, t, c[8], arg, more, 'true' if have else 'false'))
            p('}')
    p('namespace hxc\n{\nstruct K { };\nvoid key_stream_insert_K(std::ostream &, const K &, const obake::symbol_set &);')
    p('inline void key_stream_insert(std::ostream &os, const K &x, const obake::symbol_set &ss) { key_stream_insert_K(os, x, ss); }')
    p('}\nnamespace hx\n{\ninline void key_tex_stream_insert_K_c(std::ostream &os, const hxc::K &x, const obake::symbol_set &ss) { obake::key_tex_stream_insert(os, x, ss); }\n}')
    # safe_convert: only between objects of one type by default
    p('namespace hxw\n{\nusing namespace hxc;')
    for a, b, v in (('Y', 'E &', 1), ('Y', 'A &', 1), ('D', 'D &', 1), ('const D &', 'D &', 1), ('Y', 'D &', 0), ('Y', 'N &', 0), ('D', 'const D &', 0), ('Z', 'E &', 0)):
        n = '%s_to_%s' % tuple(x.replace('const ', 'c').replace(' &', 'r') for x in (a, b))
        for q, m in (('is_safely_convertible_v', ''), ('SafelyConvertible', '_concept')):
            p('inline constexpr bool safe_convert_%s%s = obake::%s<%s, %s> == %s;' % (n, m, q, a, b, 'true' if v else 'false'))
    p('}')
    # Results that are references come back as such, and an implementation that may throw makes a call that may throw.
    p('namespace hxc\n{')
    nr = set()
    for c in C:
        name, args, ret = c[0], c[5], c[6]
        t = 'F_%s' % name
        p('struct %s { %s(const %s &); %s &operator=(const %s &); %s operator-() const; };' % ((t,) * 6))
        rt = ret.replace('@', t)
        if ret == 'R':
            rt = 'R &'
        nr.add(name)
        for cat in 'cr':
            p('%s %s(%s);' % (rt, name, sig(args, t, cat)))
    p('}\nnamespace hxw\n{\nusing namespace hxc;')
    for c in C:
        name, args, ret = c[0], c[5], c[6]
        t = 'F_%s' % name
        for cat in 'cr':
            o = []
            for a in args:
                ty = t if a == 'T' else a if a in ('Y', 'Z') else None
                o.append('std::declval<%s>()' % (('const %s &' if cat == 'c' else '%s &&') % ty if ty else a[0]))
            call = 'obake::%s(%s)' % (name, ', '.join(o))
            rt = ret.replace('@', t)
            if ret == 'R':
                rt = 'R &'
            if name == 'negate':
                rt = 'const %s &' % t if cat == 'c' else '%s &&' % t
            p('inline constexpr bool %s_result_%s = std::is_same_v<decltype(%s), %s>;' % (name, 'lvalue' if cat == 'c' else 'rvalue', call, rt))
            p('inline constexpr bool %s_throws_%s = !noexcept(%s);' % (name, 'lvalue' if cat == 'c' else 'rvalue', call))
    p('}')
    p('namespace hxw\n{\nusing namespace hxc;')
    p('inline constexpr bool negate_D_result_lvalue = std::is_same_v<decltype(obake::negate(std::declval<D &>())), D &>;')
    p('inline constexpr bool negate_D_result_rvalue = std::is_same_v<decltype(obake::negate(std::declval<D>())), D &&>;')
    for n, a in (('negate', 'D &'), ('hash', 'const D &'), ('is_zero', 'const D &')):
        p('inline constexpr bool %s_D_throws = !noexcept(obake::%s(std::declval<%s>()));' % (n, n, a))
    for n in ('cf_stream_insert', 'tex_stream_insert', 'cf_tex_stream_insert'):
        p('inline constexpr bool %s_D_throws = !noexcept(obake::%s(std::declval<std::ostream &>(), std::declval<const D &>()));' % (n, n))
    p('}')
    # Wrong result types make the customisation unusable.
    p('namespace hxw\n{\nstruct W { W(const W &); W &operator=(const W &); };')
    p('int byte_size(const W &);\nint hash(const W &);\nint trim(const W &);\nint key_trim(const W &, const obake::symbol_idx_set &, const obake::symbol_set &);')
    p('int key_merge_symbols(const W &, const obake::symbol_idx_map<obake::symbol_set> &, const obake::symbol_set &);')
    p('int monomial_pow(const W &, int, const obake::symbol_set &);\nint monomial_diff(const W &, const obake::symbol_idx &, const obake::symbol_set &);')
    p('std::pair<int, int> monomial_integrate(const W &, const obake::symbol_idx &, const obake::symbol_set &);')
    p('std::pair<int, int> monomial_subs(const W &, const obake::symbol_idx_map<int> &, const obake::symbol_set &);')
    for n, tr, m in (('byte_size', 'is_size_measurable_v', ''), ('hash', 'is_hashable_v', ''), ('trim', 'is_trimmable_v', ''), ('key_trim', 'is_trimmable_key_v', ''),
                     ('key_merge_symbols', 'is_symbols_mergeable_key_v', ''), ('monomial_pow', 'is_exponentiable_monomial_v', ', int'),
                     ('monomial_diff', 'is_differentiable_monomial_v', ''), ('monomial_integrate', 'is_integrable_monomial_v', ''),
                     ('monomial_subs', 'is_substitutable_monomial_v', ', int')):
        p('inline constexpr bool %s_wrong_result = obake::%s<const W &%s> == false;' % (n, tr, m))
    p('}')
    open(__file__.replace('gen_cpo.py', 'cpo.cpp'), 'w').write('\n'.join(w) + '\n')


if __name__ == '__main__':
    main()
