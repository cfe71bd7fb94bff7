#pragma once
// stand-in: the only thing utl/init_from.h uses of cista
namespace cista::detail {
template <typename T> inline constexpr bool has_cista_members_v = false;
}
