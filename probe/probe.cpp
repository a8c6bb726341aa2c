// Makes the compiler write out the copying operations of the option classes, so
// that those it supplies by itself are analysed too.
#include <FittingOptions.h>
#include <InputOptions.h>
#include <OutputOptions.h>
#include <Options.h>
#include <new>
#include <type_traits>

template <class T> void probe(T *a, const T *b, void *at) {
  if constexpr (std::is_copy_assignable<T>::value)
    *a = *b;
  if constexpr (std::is_copy_constructible<T>::value)
    new (at) T(*b);
}
template void probe<FittingOptions>(FittingOptions *, const FittingOptions *, void *);
template void probe<InputOptions>(InputOptions *, const InputOptions *, void *);
template void probe<OutputOptions>(OutputOptions *, const OutputOptions *, void *);
template void probe<Options>(Options *, const Options *, void *);
