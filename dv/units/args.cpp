// instantiations of the typed access to named arguments
#include "coil/Coil.h"
#include "coil/detail/TypeSerializer.h"
#define ONE(T) \
template coil::Expected<T, coil::NamedArgs::Error> coil::NamedArgs::get<T>(coil::StringView) const; \
template coil::Optional<T> coil::NamedArgs::getOrReport<T>(coil::StringView, coil::NamedArgs::ArgType, coil::Optional<T>) const;
ONE(int)
ONE(bool)
ONE(coil::String)
ONE(unsigned long)
