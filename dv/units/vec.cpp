// instantiations of the containers that are verified (the code is coil's own headers)
#include "coil/Coil.h"
template class coil::Vector<int>;
template class coil::Vector<coil::String>;
template class coil::Vector<coil::StringView>;
template class coil::Vector<coil::Value>;
