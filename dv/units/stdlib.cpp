// instantiations of the serializers of standard containers
#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#define ONE(...) template struct coil::TypeSerializer<__VA_ARGS__>;
ONE(std::vector<int>)
ONE(std::vector<unsigned long>)
ONE(std::vector<double>)
ONE(std::vector<coil::String>)
ONE(std::vector<std::string>)
ONE(std::optional<coil::String>)
ONE(std::optional<std::string>)
ONE(std::optional<std::vector<int>>)
namespace use
{
    auto f1 = &coil::TypeSerializer<std::string>::fromString;
    auto f2 = &coil::TypeSerializer<std::string>::toString;
    auto f3 = &coil::TypeSerializer<std::string_view>::fromString;
    auto f4 = &coil::TypeSerializer<std::string_view>::toString;
    auto f5 = &coil::toStdString;
    auto f6 = &coil::toStdStringView;
    auto f7 = &coil::fromStdString;
    auto f8 = &coil::fromStdStringView;
}
