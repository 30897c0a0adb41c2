// Minimal stand-in for the parts of LLNL/camp that LvArray uses. Written for the checks in /verif.
#pragma once
#include <algorithm>
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace camp
{
using idx_t = std::ptrdiff_t;

template< typename T, T... VALUES >
struct int_seq
{
  using type = int_seq;
  using value_type = T;
  static constexpr idx_t size = sizeof...( VALUES );
};

template< idx_t... VALUES >
using idx_seq = int_seq< idx_t, VALUES... >;

namespace internal
{
template< idx_t N, idx_t... VALUES >
struct make_idx_seq : make_idx_seq< N - 1, N - 1, VALUES... > {};
template< idx_t... VALUES >
struct make_idx_seq< 0, VALUES... > { using type = idx_seq< VALUES... >; };
}

template< idx_t N >
using make_idx_seq_t = typename internal::make_idx_seq< N >::type;

template< idx_t N >
using make_idx_seq = internal::make_idx_seq< N >;

template< idx_t I, typename SEQ >
struct seq_at;

template< idx_t I, typename T, T HEAD, T... TAIL >
struct seq_at< I, int_seq< T, HEAD, TAIL... > > : seq_at< I - 1, int_seq< T, TAIL... > > {};

template< typename T, T HEAD, T... TAIL >
struct seq_at< 0, int_seq< T, HEAD, TAIL... > > { static constexpr T value = HEAD; };

template< idx_t I, typename T, T HEAD, T... TAIL >
constexpr T seq_at_v = seq_at< I, int_seq< T, HEAD, TAIL... > >::value;

template< idx_t V >
using num = std::integral_constant< idx_t, V >;

template< typename... TS >
using tuple = std::tuple< TS... >;

template< typename... TS >
struct list { using type = list; };

template< idx_t I, typename... TS >
constexpr auto & get( std::tuple< TS... > & t ) { return std::get< I >( t ); }
template< idx_t I, typename... TS >
constexpr auto const & get( std::tuple< TS... > const & t ) { return std::get< I >( t ); }
template< idx_t I, typename... TS >
constexpr auto && get( std::tuple< TS... > && t ) { return std::get< I >( std::move( t ) ); }

template< typename... TS >
constexpr auto make_tuple( TS && ... ts ) { return std::make_tuple( std::forward< TS >( ts )... ); }

template< typename... TS >
constexpr auto tie( TS & ... ts ) { return std::tie( ts... ); }

template< typename... TS >
void sink( TS const & ... ) {}

namespace concepts
{
namespace metalib
{
template< bool... >
struct bool_list {};

template< bool... BOOLS >
struct all_of : std::is_same< bool_list< true, BOOLS... >, bool_list< BOOLS..., true > > {};

template< typename... TS >
using all_of_t = all_of< TS::value... >;

template< bool... BOOLS >
struct none_of : std::is_same< bool_list< false, BOOLS... >, bool_list< BOOLS..., false > > {};

template< bool... BOOLS >
struct any_of : std::integral_constant< bool, !none_of< BOOLS... >::value > {};
}
}
}
