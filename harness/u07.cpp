// U07: iterator and range classification and access.
#include <pbt.hpp>

#include <array>
#include <cstddef>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <obake/detail/it_diff_check.hpp>
#include <obake/ranges.hpp>
#include <obake/type_traits.hpp>

#include "zint.hpp"

namespace
{

struct elem {
    int v = 0;
    bool operator==(const elem &) const = default;
};

enum level { none = 0, iter, input, forward, bidir, random_access };

// An iterator over an array, with one thing wrong.
enum defect {
    d_ok,
    d_no_copy_assign,
    d_no_copy,
    d_unsigned_diff,
    d_no_diff,
    d_preinc_void,
    d_preinc_value,
    d_no_deref,
    d_deref_other,
    d_const_deref_other,
    d_no_eq,
    d_no_arrow,
    d_no_const_arrow,
    d_arrow_other,
    d_no_postinc,
    d_postinc_value,
    d_postinc_deref_other,
    d_no_default,
    d_proxy_ref,
    d_no_predec,
    d_predec_void,
    d_no_postdec,
    d_postdec_void,
    d_postdec_deref_other,
    d_no_inplace_add,
    d_inplace_add_void,
    d_no_add,
    d_no_reverse_add,
    d_no_inplace_sub,
    d_no_sub,
    d_no_distance,
    d_distance_other,
    d_no_subscript,
    d_subscript_other,
    d_no_lt,
    d_no_gt,
    d_no_le,
    d_no_ge,
    d_tag_none,
    d_tag_input,
    d_tag_output,
    d_tag_forward,
    d_tag_bidir,
    d_count
};

struct other {
    int x;
};
struct no_tag {
};

template <int D, bool Const>
struct it_t {
    using value_type = elem;
    using difference_type = std::conditional_t<D == d_unsigned_diff, std::size_t, std::ptrdiff_t>;
    using pointer = std::conditional_t<Const, const elem *, elem *>;
    using elem_ref = std::conditional_t<Const, const elem &, elem &>;
    using reference = std::conditional_t<D == d_proxy_ref, elem, elem_ref>;
    using iterator_category = std::conditional_t<
        D == d_tag_none, no_tag,
        std::conditional_t<
            D == d_tag_input, std::input_iterator_tag,
            std::conditional_t<D == d_tag_output, std::output_iterator_tag,
                               std::conditional_t<D == d_tag_forward, std::forward_iterator_tag,
                                                  std::conditional_t<D == d_tag_bidir, std::bidirectional_iterator_tag,
                                                                     std::random_access_iterator_tag>>>>>;
    pointer p = nullptr;

    it_t() requires(D != d_no_default) = default;
    explicit it_t(pointer q) : p(q) {}
    it_t(const it_t &) requires(D != d_no_copy) = default;
    it_t &operator=(const it_t &) requires(D != d_no_copy_assign) = default;

    reference operator*() requires(D != d_no_deref && D != d_deref_other)
    {
        return *p;
    }
    reference operator*() const requires(D != d_no_deref && D != d_deref_other && D != d_const_deref_other)
    {
        return *p;
    }
    other operator*() requires(D == d_deref_other)
    {
        return {};
    }
    other operator*() const requires(D == d_deref_other || D == d_const_deref_other)
    {
        return {};
    }
    pointer operator->() requires(D != d_no_arrow && D != d_arrow_other)
    {
        return p;
    }
    pointer operator->() const requires(D != d_no_arrow && D != d_arrow_other && D != d_no_const_arrow)
    {
        return p;
    }
    other *operator->() const requires(D == d_arrow_other)
    {
        return nullptr;
    }
    it_t &operator++() requires(D != d_preinc_void && D != d_preinc_value)
    {
        ++p;
        return *this;
    }
    void operator++() requires(D == d_preinc_void) {}
    it_t operator++() requires(D == d_preinc_value)
    {
        return *this;
    }
    it_t operator++(int) requires(D != d_no_postinc && D != d_postinc_value && D != d_postinc_deref_other)
    {
        it_t r(p);
        ++p;
        return r;
    }
    // Not convertible to the iterator, but its dereference is the value.
    pointer operator++(int) requires(D == d_postinc_value)
    {
        return p++;
    }
    // Convertible to the iterator, and its dereference is the value, not a reference.
    struct pid {
        it_t i;
        operator const it_t &() const
        {
            return i;
        }
        elem operator*() const
        {
            return *i.p;
        }
    };
    pid operator++(int) requires(D == d_postinc_deref_other)
    {
        return {};
    }
    it_t &operator--() requires(D != d_no_predec && D != d_predec_void)
    {
        --p;
        return *this;
    }
    void operator--() requires(D == d_predec_void) {}
    it_t operator--(int) requires(D != d_no_postdec && D != d_postdec_void && D != d_postdec_deref_other)
    {
        it_t r(p);
        --p;
        return r;
    }
    void operator--(int) requires(D == d_postdec_void) {}
    pid operator--(int) requires(D == d_postdec_deref_other)
    {
        return {};
    }
    it_t &operator+=(difference_type n) requires(D != d_no_inplace_add && D != d_inplace_add_void)
    {
        p += n;
        return *this;
    }
    void operator+=(difference_type) requires(D == d_inplace_add_void) {}
    it_t &operator-=(difference_type n) requires(D != d_no_inplace_sub)
    {
        p -= n;
        return *this;
    }
    it_t operator+(difference_type n) const requires(D != d_no_add)
    {
        return it_t(p + n);
    }
    it_t operator-(difference_type n) const requires(D != d_no_sub)
    {
        return it_t(p - n);
    }
    difference_type operator-(const it_t &o) const requires(D != d_no_distance && D != d_distance_other)
    {
        return static_cast<difference_type>(p - o.p);
    }
    int operator-(const it_t &o) const requires(D == d_distance_other)
    {
        return static_cast<int>(p - o.p);
    }
    elem_ref operator[](difference_type n) const requires(D != d_no_subscript && D != d_subscript_other)
    {
        return p[n];
    }
    other operator[](difference_type) const requires(D == d_subscript_other)
    {
        return {};
    }
    friend it_t operator+(difference_type n, const it_t &i) requires(D != d_no_reverse_add)
    {
        return it_t(i.p + n);
    }
    friend bool operator==(const it_t &a, const it_t &b) requires(D != d_no_eq)
    {
        return a.p == b.p;
    }
    friend bool operator<(const it_t &a, const it_t &b) requires(D != d_no_lt)
    {
        return a.p < b.p;
    }
    friend bool operator>(const it_t &a, const it_t &b) requires(D != d_no_gt)
    {
        return a.p > b.p;
    }
    friend bool operator<=(const it_t &a, const it_t &b) requires(D != d_no_le)
    {
        return a.p <= b.p;
    }
    friend bool operator>=(const it_t &a, const it_t &b) requires(D != d_no_ge)
    {
        return a.p >= b.p;
    }
};

// No member types at all: std::iterator_traits has nothing.
template <bool Const>
struct it_t<d_no_diff, Const> {
    elem *p = nullptr;
    elem &operator*() const
    {
        return *p;
    }
    it_t &operator++()
    {
        ++p;
        return *this;
    }
};

constexpr level expected(int d)
{
    switch (d) {
        case d_ok:
            return random_access;
        case d_no_copy_assign:
        case d_no_copy:
        case d_unsigned_diff:
        case d_no_diff:
        case d_preinc_void:
        case d_preinc_value:
        case d_no_deref:
        case d_tag_none:
            return none;
        case d_deref_other:
        case d_const_deref_other:
        case d_no_eq:
        case d_no_arrow:
        case d_no_const_arrow:
        case d_arrow_other:
        case d_no_postinc:
        case d_tag_output:
            return iter;
        case d_no_default:
        case d_proxy_ref:
        case d_postinc_value:
        case d_postinc_deref_other:
        case d_tag_input:
            return input;
        case d_no_predec:
        case d_predec_void:
        case d_no_postdec:
        case d_postdec_void:
        case d_postdec_deref_other:
        case d_tag_forward:
            return forward;
        default:
            return bidir;
    }
}

// d_proxy_ref: the arrow operator of a proxy yields the element type as well, so it stays an input iterator.

template <typename It>
constexpr int traits_level_of()
{
    return obake::is_random_access_iterator_v<It>   ? random_access
           : obake::is_bidirectional_iterator_v<It> ? bidir
           : obake::is_forward_iterator_v<It>       ? forward
           : obake::is_input_iterator_v<It>         ? input
           : obake::is_iterator_v<It>               ? iter
                                                    : none;
}

template <typename It>
void check_level(pbt::T &t, int want, bool mut, const std::string &what)
{
    const bool got[] = {obake::is_iterator_v<It>,      obake::is_input_iterator_v<It>,         obake::is_forward_iterator_v<It>,
                        obake::is_bidirectional_iterator_v<It>, obake::is_random_access_iterator_v<It>};
    const bool con[] = {obake::Iterator<It>, obake::InputIterator<It>, obake::ForwardIterator<It>,
                        obake::BidirectionalIterator<It>, obake::RandomAccessIterator<It>};
    for (int l = iter; l <= random_access; ++l) {
        PBT_CHECK(t, got[l - 1] == (l <= want), what, ": trait of level ", l, ", expected level ", want);
        PBT_CHECK(t, con[l - 1] == (l <= want), what, ": concept of level ", l, ", expected level ", want);
    }
    const bool m = want >= forward && mut;
    PBT_CHECK(t, obake::is_mutable_forward_iterator_v<It> == m, what, ": mutable");
    PBT_CHECK(t, obake::MutableForwardIterator<It> == m, what, ": mutable (concept)");
}

template <typename R>
void check_range_level(pbt::T &t, int want, bool mut, const std::string &what)
{
    const bool got[] = {obake::is_range_v<R>, obake::is_input_range_v<R>, obake::is_forward_range_v<R>,
                        obake::is_bidirectional_range_v<R>, obake::is_random_access_range_v<R>};
    const bool con[] = {obake::Range<R>, obake::InputRange<R>, obake::ForwardRange<R>, obake::BidirectionalRange<R>,
                        obake::RandomAccessRange<R>};
    for (int l = iter; l <= random_access; ++l) {
        PBT_CHECK(t, got[l - 1] == (l <= want), what, ": range trait of level ", l, ", expected level ", want);
        PBT_CHECK(t, con[l - 1] == (l <= want), what, ": range concept of level ", l, ", expected level ", want);
    }
    const bool m = want >= forward && mut;
    PBT_CHECK(t, obake::is_mutable_forward_range_v<R> == m, what, ": mutable range");
    PBT_CHECK(t, obake::MutableForwardRange<R> == m, what, ": mutable range (concept)");
}

// Ranges made of such iterators: by member functions or by argument-dependent lookup.
template <int D, bool Const>
struct member_range {
    std::vector<elem> *v;
    using it = it_t<D, Const>;
    it begin() const
    {
        return it(v->data());
    }
    it end() const
    {
        return it(v->data() + v->size());
    }
};

} // namespace

namespace u07_ns
{
template <typename V>
struct adl_range {
    V *v;
    mutable int calls = 0;
};
template <typename V>
auto begin(const adl_range<V> &r)
{
    ++r.calls;
    return r.v->begin();
}
template <typename V>
auto end(const adl_range<V> &r)
{
    ++r.calls;
    return r.v->end();
}
struct lvalue_only {
    std::vector<elem> v;
};
inline auto begin(lvalue_only &r)
{
    return r.v.begin();
}
inline auto end(lvalue_only &r)
{
    return r.v.end();
}
struct mismatch {
    std::vector<elem> v;
};
inline auto begin(mismatch &r)
{
    return r.v.begin();
}
inline auto end(mismatch &r)
{
    return r.v.cend();
}
struct no_end {
};
inline int *begin(no_end &)
{
    return nullptr;
}
struct not_iterators {
};
inline int begin(not_iterators &)
{
    return 0;
}
inline int end(not_iterators &)
{
    return 0;
}
} // namespace u07_ns

namespace
{

template <typename F>
void with_defect(pbt::T &t, F &&f)
{
    const auto d = t.below(d_count);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == d ? (f(std::integral_constant<int, static_cast<int>(I)>{}), 0) : 0), ...);
    }(std::make_index_sequence<d_count>{});
}

std::vector<elem> gen_elems(pbt::T &t)
{
    std::vector<elem> r(t.below(12));
    for (auto &e : r) e.v = static_cast<int>(t.sym(1000));
    return r;
}

} // namespace

PBT_SUB(iterators, 60000, 300000,
        "iterator types that lack exactly one of 42 requirements (mutable or constant), and pointers: the strongest category "
        "whose requirements they all meet, by trait and by concept; non-trivial: something is missing")
{
    with_defect(t, [&](auto d) {
        constexpr int D = decltype(d)::value;
        t.nontrivial(D != d_ok);
        const auto what = pbt::cat("iterator with defect ", D);
        check_level<it_t<D, false>>(t, expected(D), true, what);
        if (D != d_no_diff && D != d_proxy_ref) check_level<it_t<D, true>>(t, expected(D), false, what + " (constant)");
    });
    check_level<elem *>(t, random_access, true, "pointer");
    check_level<const elem *>(t, random_access, false, "pointer to constant");
    check_level<void *>(t, none, false, "pointer to void");
    check_level<int>(t, none, false, "int");
    check_level<int &>(t, none, false, "int &");
    check_level<void>(t, none, false, "void");
    check_level<elem *&>(t, none, false, "reference to pointer");
    check_level<std::vector<int>::iterator>(t, random_access, true, "vector");
    check_level<std::vector<int>::const_iterator>(t, random_access, false, "vector");
    check_level<const std::vector<int>::iterator>(t, none, false, "constant iterator");
    // The reference is a class without an arrow operator on the iterator.
    check_level<std::vector<bool>::iterator>(t, iter, false, "vector<bool>");
    check_level<std::deque<elem>::iterator>(t, random_access, true, "deque");
    check_level<std::list<elem>::iterator>(t, bidir, true, "list");
    check_level<std::set<int>::iterator>(t, bidir, false, "set");
    check_level<std::map<int, elem>::iterator>(t, bidir, true, "map");
    check_level<std::forward_list<elem>::iterator>(t, forward, true, "forward_list");
    check_level<std::unordered_map<int, elem>::iterator>(t, forward, true, "unordered_map");
    check_level<std::istreambuf_iterator<char>>(t, input, false, "istreambuf");
    check_level<std::istream_iterator<std::string>>(t, input, false, "istream");
    check_level<std::back_insert_iterator<std::vector<int>>>(t, iter, false, "back inserter");
    check_level<std::ostream_iterator<int>>(t, iter, false, "ostream");
    check_level<std::reverse_iterator<elem *>>(t, random_access, true, "reversed pointer");
    const bool out[] = {obake::is_output_iterator_v<std::back_insert_iterator<std::vector<int>>, int>,
                        obake::is_output_iterator_v<std::ostream_iterator<int>, int>,
                        obake::is_output_iterator_v<int *, int>,
                        obake::is_output_iterator_v<std::vector<int>::iterator, long>,
                        obake::is_output_iterator_v<std::list<elem>::iterator, elem>,
                        obake::OutputIterator<std::back_insert_iterator<std::vector<int>>, int>};
    for (bool b : out) PBT_CHECK(t, b, "output iterator");
    const bool nout[] = {obake::is_output_iterator_v<std::back_insert_iterator<std::vector<int>>, std::string>,
                         obake::is_output_iterator_v<const int *, int>, obake::is_output_iterator_v<int *, std::string>,
                         obake::is_output_iterator_v<std::vector<int>::const_iterator, int>,
                         obake::is_output_iterator_v<std::istream_iterator<int>, int>,
                         obake::is_output_iterator_v<int, int>, obake::is_output_iterator_v<void, int>,
                         obake::is_output_iterator_v<int *, void>, obake::OutputIterator<const int *, int>};
    for (bool b : nout) PBT_CHECK(t, !b, "not an output iterator");
}

namespace
{
// Iterators to write through, with one thing wrong.
enum out_defect {
    o_ok,
    o_no_deref,
    o_no_copy,
    o_preinc_void,
    o_preinc_value,
    o_preinc_const,
    o_no_postinc,
    o_postinc_other,
    o_postinc_sink,
    o_postinc_not_assignable,
    o_tag_input,
    o_tag_none,
    o_readable,
    o_readable_tag_output,
    o_deref_by_value,
    o_count
};
struct only_lvalues {
};
struct only_moves {
    only_moves() = default;
    only_moves(only_moves &&) = default;
    only_moves &operator=(only_moves &&) = default;
};
template <int D>
struct out_t {
    struct sink {
        void operator=(const elem &) const {}
        void operator=(only_lvalues &) const {}
        void operator=(only_moves &&) const {}
    };
    // For those that can be read as well.
    static constexpr bool readable = D == o_readable || D == o_readable_tag_output;
    using value_type = std::conditional_t<readable, elem, void>;
    using difference_type = std::ptrdiff_t;
    using pointer = std::conditional_t<readable, elem *, void>;
    using reference = std::conditional_t<readable, elem &, void>;
    struct both : std::input_iterator_tag, std::output_iterator_tag {
    };
    using iterator_category = std::conditional_t<
        D == o_tag_none, no_tag,
        std::conditional_t<D == o_tag_input || D == o_readable, std::input_iterator_tag,
                           std::conditional_t<D == o_readable_tag_output, both, std::output_iterator_tag>>>;
    sink s;
    elem *p = nullptr;

    out_t() = default;
    out_t(const out_t &) requires(D != o_no_copy) = default;
    out_t &operator=(const out_t &) = default;

    const sink &operator*() const requires(D != o_no_deref && !readable && D != o_deref_by_value)
    {
        return s;
    }
    sink operator*() const requires(D == o_deref_by_value)
    {
        return s;
    }
    elem &operator*() const requires readable
    {
        return *p;
    }
    elem *operator->() const requires readable
    {
        return p;
    }
    bool operator==(const out_t &o) const requires readable
    {
        return p == o.p;
    }
    out_t &operator++() requires(D != o_preinc_void && D != o_preinc_value && D != o_preinc_const)
    {
        return *this;
    }
    void operator++() requires(D == o_preinc_void) {}
    out_t operator++() requires(D == o_preinc_value)
    {
        return *this;
    }
    const out_t &operator++() requires(D == o_preinc_const)
    {
        return *this;
    }
    out_t operator++(int)
        requires(D != o_no_postinc && D != o_postinc_other && D != o_postinc_sink && D != o_postinc_not_assignable)
    {
        return *this;
    }
    struct nothing {
    };
    nothing operator++(int) requires(D == o_postinc_other)
    {
        return {};
    }
    // *i++ = x is fine, but i++ is not convertible to the iterator.
    struct assignable {
        const sink &operator*() const
        {
            static const sink s;
            return s;
        }
    };
    assignable operator++(int) requires(D == o_postinc_sink)
    {
        return {};
    }
    // The other way round.
    struct convertible {
        operator const out_t &() const
        {
            static const out_t o;
            return o;
        }
        int operator*() const
        {
            return 0;
        }
    };
    convertible operator++(int) requires(D == o_postinc_not_assignable)
    {
        return {};
    }
};

template <typename It, typename U>
void check_out(pbt::T &t, bool want, const std::string &what)
{
    PBT_CHECK(t, (obake::is_output_iterator_v<It, U> == want), what, ": trait, expected ", want);
    PBT_CHECK(t, (obake::is_output_iterator<It, U>::value == want), what, ": trait class, expected ", want);
    PBT_CHECK(t, (obake::OutputIterator<It, U> == want), what, ": concept, expected ", want);
}
} // namespace

PBT_SUB(output_iterators, 60000, 300000,
        "output iterators that lack one of 14 requirements, and iterators with one of the defects above, with values of "
        "several types and value categories; non-trivial: something is missing")
{
    const auto k = t.below(o_count);
    t.nontrivial(k != o_ok);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        auto one = [&](auto dd) {
            constexpr int D = decltype(dd)::value;
            using It = out_t<D>;
            const bool ok = D == o_ok || D == o_readable || D == o_deref_by_value;
            constexpr bool r = It::readable;
            const auto what = pbt::cat("output iterator with defect ", D);
            check_out<It, elem>(t, ok, what);
            check_out<It, elem &>(t, ok, what + " (lvalue)");
            check_out<It, const elem &>(t, ok, what + " (constant)");
            check_out<It, only_lvalues &>(t, ok && !r, what + " (lvalues only: lvalue)");
            check_out<It, only_lvalues>(t, false, what + " (lvalues only: rvalue)");
            check_out<It, const only_lvalues &>(t, false, what + " (lvalues only: constant)");
            check_out<It, only_moves>(t, ok && !r, what + " (moves only)");
            check_out<It, only_moves &>(t, false, what + " (moves only: lvalue)");
            check_out<It, std::string>(t, false, what + " (string)");
            check_out<It, It>(t, false, what + " (itself)");
            check_out<It &, elem>(t, false, what + " (reference)");
            check_out<const It, elem>(t, false, what + " (constant iterator)");
            check_out<elem, It>(t, false, what + " (swapped)");
        };
        ((I == k ? one(std::integral_constant<int, static_cast<int>(I)>{}) : void()), ...);
    }(std::make_index_sequence<o_count>{});
    with_defect(t, [&](auto d) {
        constexpr int D = decltype(d)::value;
        using It = it_t<D, false>;
        // Those that can be read and written, and whose post-increment can be written through.
        const bool ok = D == d_tag_output || (expected(D) >= input && D != d_proxy_ref && D != d_postinc_value && D != d_postinc_deref_other);
        if (D != d_proxy_ref && D != d_postinc_deref_other) check_out<It, elem>(t, ok, pbt::cat("iterator with defect ", D));
        if (D != d_no_diff && D != d_proxy_ref) check_out<it_t<D, true>, elem>(t, false, pbt::cat("constant iterator with defect ", D));
        check_out<It, other>(t, false, pbt::cat("iterator with defect ", D, ", other value"));
    });
    check_out<std::string *, const char *>(t, true, "pointer");
    check_out<std::string *, std::string &>(t, true, "pointer");
    check_out<std::string *, void>(t, false, "pointer, void");
    check_out<int *, const char *>(t, false, "pointer");
    check_out<const char *, int *>(t, false, "pointer");
    check_out<std::vector<std::string>::iterator, const char *>(t, true, "vector");
    check_out<std::insert_iterator<std::set<std::string>>, std::string>(t, true, "inserter");
    check_out<std::ostream_iterator<std::string>, const char *>(t, true, "stream of strings");
    check_out<std::ostream_iterator<int>, const char *>(t, false, "stream of ints");
    check_out<std::ostreambuf_iterator<char>, char>(t, true, "stream buffer");
    check_out<void, int>(t, false, "void");
    check_out<std::istream_iterator<std::string>, const char *>(t, false, "input stream");
}

PBT_SUB(range_categories, 60000, 300000,
        "ranges made of such iterators, of the standard containers, arrays and of types with only one of begin and end: the "
        "category of the iterators; non-trivial: something is missing")
{
    with_defect(t, [&](auto d) {
        constexpr int D = decltype(d)::value;
        if constexpr (D != d_no_copy && D != d_no_diff) {
            t.nontrivial(D != d_ok);
            const auto what = pbt::cat("range with defect ", D);
            using R = member_range<D, false>;
            using RC = member_range<D, true>;
            check_range_level<R>(t, expected(D), true, what);
            check_range_level<R &>(t, expected(D), true, what);
            check_range_level<const R &>(t, expected(D), true, what);
            if (D == d_proxy_ref) return;
            check_range_level<RC>(t, expected(D), false, what);
            check_range_level<const RC>(t, expected(D), false, what);
            using M = decltype(obake::detail::make_range(std::declval<it_t<D, false>>(), std::declval<it_t<D, false>>()));
            check_range_level<M>(t, expected(D), true, what + " (from a pair)");
            check_range_level<const M &>(t, expected(D), true, what + " (from a pair)");
        }
    });
    check_range_level<std::vector<int> &>(t, random_access, true, "vector");
    check_range_level<const std::vector<int> &>(t, random_access, false, "vector");
    // A temporary binds to the constant overload.
    check_range_level<std::vector<int>>(t, random_access, false, "temporary vector");
    check_range_level<std::list<int> &>(t, bidir, true, "list");
    check_range_level<const std::list<int>>(t, bidir, false, "list");
    check_range_level<std::set<int> &>(t, bidir, false, "set");
    check_range_level<std::forward_list<int> &>(t, forward, true, "forward_list");
    check_range_level<int(&)[4]>(t, random_access, true, "array");
    check_range_level<const int(&)[4]>(t, random_access, false, "array");
    check_range_level<std::array<int, 3> &>(t, random_access, true, "std::array");
    check_range_level<std::initializer_list<int>>(t, random_access, false, "initializer_list");
    check_range_level<std::string &>(t, random_access, true, "string");
    check_range_level<int>(t, none, false, "int");
    check_range_level<void>(t, none, false, "void");
    check_range_level<int *>(t, none, false, "pointer");
    check_range_level<u07_ns::adl_range<std::list<elem>>>(t, bidir, true, "ADL");
    check_range_level<u07_ns::lvalue_only &>(t, random_access, true, "only named objects");
    check_range_level<const u07_ns::lvalue_only &>(t, none, false, "only named objects");
    check_range_level<u07_ns::lvalue_only>(t, none, false, "only named objects");
    check_range_level<u07_ns::mismatch &>(t, none, false, "different types");
    check_range_level<u07_ns::no_end &>(t, none, false, "without an end");
    check_range_level<u07_ns::not_iterators &>(t, none, false, "not iterators");
}

PBT_SUB(access, 100000, 2000000,
        "the elements seen through begin and end of containers, arrays, types with their own begin and end and pairs of "
        "iterators are the elements, and writes go through; non-trivial: at least two elements")
{
    auto v = gen_elems(t);
    const auto orig = v;
    t.nontrivial(v.size() > 1u);
    auto same = [&](auto &&r) {
        std::vector<elem> got;
        for (auto b = obake::begin(r), e = obake::end(r); !(b == e); ++b) {
            got.push_back(*b);
            PBT_CHECK(t, got.size() <= orig.size(), "too many elements");
        }
        PBT_CHECK(t, got == orig, "other elements");
    };
    same(v);
    same(std::as_const(v));
    same(std::list<elem>(v.begin(), v.end()));
    same(std::forward_list<elem>(v.begin(), v.end()));
    same(std::deque<elem>(v.begin(), v.end()));
    same(member_range<d_ok, false>{&v});
    same(member_range<d_ok, true>{&v});
    u07_ns::adl_range<std::vector<elem>> ar{&v};
    same(ar);
    PBT_CHECK(t, ar.calls == 2, "begin and end called ", ar.calls, " times");
    u07_ns::lvalue_only lo{v};
    same(lo);
    // A part of the elements, as a pair of iterators.
    const auto i = t.below(v.size() + 1u), j = i + t.below(v.size() - i + 1u);
    const auto r = obake::detail::make_range(v.begin() + static_cast<std::ptrdiff_t>(i), v.begin() + static_cast<std::ptrdiff_t>(j));
    PBT_CHECK(t, obake::begin(r) == v.begin() + static_cast<std::ptrdiff_t>(i));
    PBT_CHECK(t, obake::end(r) == v.begin() + static_cast<std::ptrdiff_t>(j));
    std::size_t k = i;
    for (auto &e : r) {
        PBT_CHECK(t, &e == &v[k]);
        e.v += 7;
        ++k;
    }
    PBT_CHECK(t, k == j);
    for (k = 0; k < v.size(); ++k) PBT_CHECK(t, v[k].v == orig[k].v + (k >= i && k < j ? 7 : 0));
    int a[5] = {1, 2, 3, 4, static_cast<int>(t.below(100))};
    PBT_CHECK(t, obake::begin(a) == a && obake::end(a) == a + 5);
    *obake::begin(a) = 9;
    PBT_CHECK(t, a[0] == 9);
    const bool types = std::is_same_v<decltype(obake::begin(v)), std::vector<elem>::iterator>
                       && std::is_same_v<decltype(obake::begin(std::as_const(v))), std::vector<elem>::const_iterator>
                       && std::is_same_v<decltype(obake::end(a)), int *>
                       && std::is_same_v<obake::range_begin_t<std::vector<elem> &>, std::vector<elem>::iterator>
                       && std::is_same_v<obake::range_end_t<const std::vector<elem> &>, std::vector<elem>::const_iterator>;
    PBT_CHECK(t, types);
}

namespace
{
// An iterator whose difference type is I.
template <typename I>
struct diff_it {
    using difference_type = I;
    using value_type = int;
    using pointer = int *;
    using reference = int &;
    using iterator_category = std::random_access_iterator_tag;
};
template <typename I, typename S>
struct diff_cont {
    S n;
    S size() const
    {
        return n;
    }
    diff_it<I> begin() const
    {
        return {};
    }
};
} // namespace

PBT_SUB(distances, 200000, 4000000,
        "sizes of all the unsigned types checked against the difference types of iterators of 8 to 64 bits: refused with an "
        "overflow_error that quotes the size exactly when not representable; non-trivial: within two of the limit or beyond")
{
    zi::list<signed char, short, int, long, long long>::pick(t, [&](auto a) {
        using D = typename decltype(a)::type;
        zi::list<unsigned, unsigned char, unsigned short, unsigned long, unsigned long long>::pick(t, [&](auto b) {
            using I = typename decltype(b)::type;
            I n = zi::gen<I>(t);
            if (t.below(2)) {
                const mpz_class z = zi::zmax<D>() + t.sym(2);
                if (zi::fits<I>(z)) n = zi::from_z<I>(z);
            }
            const bool fits = zi::Z(n) <= zi::zmax<D>();
            t.nontrivial(zi::Z(n) >= zi::zmax<D>() - 2);
            bool ok = true;
            try {
                if (t.below(2)) {
                    obake::detail::it_diff_check<diff_it<D>>(n);
                } else {
                    const diff_cont<D, I> c{n};
                    obake::detail::container_it_diff_check(c);
                }
            } catch (const std::overflow_error &e) {
                ok = false;
                PBT_CHECK(t, std::string(e.what()).find(" " + zi::S(n)) != std::string::npos, e.what());
            }
            PBT_CHECK(t, ok == fits, zi::S(n), " in a difference type of ", sizeof(D), " bytes: accepted ", ok);
        });
    });
}
