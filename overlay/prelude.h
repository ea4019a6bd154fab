// Forced first include for every analysed translation unit.  It only changes
// how the *vendored, absent* dependencies look to the parser; nothing in it
// touches google/autofdo's own declarations.
#pragma once
// The code base is written against an Abseil whose string_view is
// std::string_view; Ubuntu's package is configured differently.  options.h is
// replaced by an equivalent one with the std types selected.
#ifdef VERIF_STD_SV
#define ABSL_BASE_OPTIONS_H_
#define ABSL_OPTION_USE_STD_ANY 1
#define ABSL_OPTION_USE_STD_OPTIONAL 1
#define ABSL_OPTION_USE_STD_STRING_VIEW 1
#define ABSL_OPTION_USE_STD_VARIANT 1
#define ABSL_OPTION_USE_STD_ORDERING 1
#define ABSL_OPTION_USE_INLINE_NAMESPACE 1
#define ABSL_OPTION_INLINE_NAMESPACE_NAME lts_20220623
#define ABSL_OPTION_HARDENED 0
#endif
#define __INTELLISENSE__ 1  // no compile-time format checker (older absl lacks %v)
#include <cstdint>
#include <cstddef>
#include <filesystem>
#include <type_traits>
#include "third_party/abseil/absl/strings/str_format.h"
#include "third_party/abseil/absl/strings/str_cat.h"
// AbslStringify support is newer than the installed Abseil.  Found by ADL at
// the point of instantiation (namespace absl is associated through FormatSink).
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace verif_detail {
struct Sink { void Append(absl::string_view) {} void Append(size_t, char) {} };
template <class T, class = void> struct HasStringify : std::false_type {};
template <class T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <class T> struct LooksStringify : std::integral_constant<bool,
    (std::is_class<T>::value || std::is_enum<T>::value) && HasStringify<T>::value> {};
}
template <class T, class = std::enable_if_t<verif_detail::LooksStringify<T>::value>>
FormatConvertResult<FormatConversionCharSet::kString> AbslFormatConvert(
    const T& v, const FormatConversionSpec&, FormatSink*) {
  verif_detail::Sink s; AbslStringify(s, v); return {true};
}
template <class S, class... A>
void Format(S*, absl::string_view, const A&...) {}
ABSL_NAMESPACE_END
}
