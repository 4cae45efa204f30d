// std::__find_if without the manual unrolling for random access iterators, so that
// std::find_if, any_of, all_of and none_of are analysed as the loop they stand for
#pragma GCC system_header
#ifndef VFW_STL_ALGOBASE
#define VFW_STL_ALGOBASE
#define __find_if __vfw_unrolled_find_if
#include_next <bits/stl_algobase.h>
#undef __find_if
namespace std _GLIBCXX_VISIBILITY(default) {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
template <typename _Iterator, typename _Predicate>
_GLIBCXX20_CONSTEXPR inline _Iterator __find_if(_Iterator __first, _Iterator __last, _Predicate __pred) {
  while (__first != __last && !__pred(__first)) ++__first;
  return __first;
}
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
