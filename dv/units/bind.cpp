// instantiations of the callables: user functions and functors are opaque (declared, never defined)
#include "coil/Coil.h"
#include "coil/detail/Bind.h"
#include "coil/detail/Overloaded.h"
#include "coil/detail/Property.h"
#include "coil/detail/Variable.h"
namespace user
{
    struct Object;
    // a functor that owns something
    struct Sum
    {
        Sum(Sum&&);
        ~Sum();
        int operator()(int, coil::String) const;
        void* state;
    };
    struct Note
    {
        void operator()(coil::Context, bool, coil::Value const&);
        int state;
    };
    struct Obj
    {
        double read() const;
        void write(int, unsigned long);
        int number() const;
        void setNumber(int const&);
    };
    struct Get { coil::String operator()() const; void* state; };
    struct Set { void operator()(coil::String const&) const; void* state; };
    // a type with a serializer of its own
    struct Custom { coil::String text; };
    using Convert = Custom (*)(Custom, Custom const&);
    using Free = int (*)(int);
    using Plain = void (*)();
    using Ref = coil::String const& (*)(unsigned char);
    using Pointer = coil::Value const* (*)(bool);
    using Read = double (Obj::*)() const;
    using Write = void (Obj::*)(int, unsigned long);
    using Number = int (Obj::*)() const;
    using SetNumber = void (Obj::*)(int const&);
}
namespace coil
{
    template<> struct TypeSerializer<user::Custom>
    {
        static Expected<user::Custom, String> fromString(Value const&);
        static String toString(user::Custom const&);
    };
}
COIL_CREATE_TYPE_NAME(user::Custom, "Custom");
#define W(...) template class coil::detail::FunctionWrapper<__VA_ARGS__>; template class coil::detail::AnyStorage<coil::detail::FunctionWrapper<__VA_ARGS__>>; \
  template coil::AnyFunctor::AnyFunctor(coil::detail::FunctionWrapper<__VA_ARGS__>);
W()
W(int)
W(int, coil::String)
W(coil::Context, bool, coil::Value const&)
W(int, unsigned long)
W(user::Custom, user::Custom const&)
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Sum);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Note);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Free);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Plain);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Convert);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Ref);
template coil::AnyFunctor coil::detail::createAnyFunctor(user::Pointer);
template coil::AnyFunctor coil::bind(user::Read, user::Obj*);
template coil::AnyFunctor coil::bind(user::Read, user::Obj const*);
template coil::AnyFunctor coil::bind(user::Write, user::Obj*);
template coil::Vector<coil::AnyFunctor> coil::overloaded(user::Free, user::Sum);
template coil::Vector<coil::AnyFunctor> coil::overloaded(user::Plain);
template coil::Vector<coil::AnyFunctor> coil::overloaded(coil::AnyFunctor, user::Free);
template coil::Vector<coil::AnyFunctor> coil::overloaded();
template coil::Vector<coil::AnyFunctor> coil::variable(int*);
template coil::Vector<coil::AnyFunctor> coil::variable(int const*);
template coil::Vector<coil::AnyFunctor> coil::variable(coil::String*);
template auto coil::property(user::Get, user::Set);
template auto coil::property(user::Get);
template auto coil::bindProperty(user::Number, user::SetNumber, user::Obj*);
template auto coil::bindProperty(user::Number, user::Obj const*);
template coil::Bindings::Command const& coil::Bindings::add(coil::StringView, user::Free);
template coil::Bindings::Command const& coil::Bindings::add(coil::StringView, user::Sum);
template coil::BindingProxy& coil::BindingProxy::operator=(user::Free);
template coil::BindingProxy& coil::BindingProxy::operator=(user::Note);
