// instantiations of the conversion templates
#include "coil/Coil.h"
#include "coil/detail/TypeSerializer.h"
template struct coil::TypeSerializer<int*>;
template struct coil::TypeSerializer<int const*>;
template struct coil::TypeSerializer<bool*>;
template struct coil::TypeSerializer<double*>;
template struct coil::TypeSerializer<coil::String const*>;
template struct coil::TypeSerializer<coil::Value const*>;
template coil::Expected<int, coil::String> coil::Value::get<int>() const;
template coil::Expected<unsigned long, coil::String> coil::Value::get<unsigned long>() const;
template coil::Expected<double, coil::String> coil::Value::get<double>() const;
template coil::Expected<bool, coil::String> coil::Value::get<bool>() const;
template coil::Expected<coil::String, coil::String> coil::Value::get<coil::String>() const;
template coil::Expected<coil::StringView, coil::String> coil::Value::get<coil::StringView>() const;
