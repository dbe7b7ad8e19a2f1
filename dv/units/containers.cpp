// instantiations of the containers that are verified (the code is coil's own headers)
#include "coil/Coil.h"
template class coil::Optional<int>;
template class coil::Optional<coil::Value>;
template class coil::Expected<int, coil::String>;
template class coil::Expected<coil::String, coil::String>;
template class coil::Expected<coil::Value, coil::String>;
template class coil::UniquePtr<coil::Lexer>;
template bool coil::Expected<int, coil::String>::operator==<int, coil::String>(coil::Expected<int, coil::String> const&) const;
template bool coil::Expected<coil::String, coil::String>::operator==<coil::String, coil::String>(coil::Expected<coil::String, coil::String> const&) const;
template bool coil::Expected<coil::Value, coil::String>::operator==<coil::Value, coil::String>(coil::Expected<coil::Value, coil::String> const&) const;
