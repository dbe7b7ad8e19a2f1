"""What each property's check verifies."""
ASSUME=['allocation never fails','the C library behaves as ISO C/POSIX specify','the compiler translates C++ to LLVM IR correctly (clang 18 -O0)']
TRUST=['clang 18 front end','z3','dv/ (the verification-condition generator)']
SPECS=['specs_text','specs_vec','specs_value','specs_fmt','specs_conv','specs_calls','specs_reg','specs_bind','specs_lex','specs_std']
V=r'coil::Vector<%s>::.*'
GROUPS={
 'view':dict(functions=[r'coil::StringView::.*']),
 'string':dict(functions=[r'coil::String::.*',r'coil::operator\+\(coil::String, .*\)']),
 'textcmp':dict(functions=[r'coil::operator(==|!=)\(coil::StringView const&, coil::StringView const&\)',r'coil::String::operator==.*',r'coil::Hash<.*>::operator\(\).*'],lemmas=[('specs_text','hash')]),
 'vec_int':dict(units=['vec'],functions=[V%'int']),
 'vec_string':dict(units=['vec'],functions=[V%'coil::String']),
 'vec_view':dict(units=['vec'],functions=[V%'coil::StringView']),
 'containers':dict(units=['containers'],functions=[r'coil::(Optional|Expected|Unexpected)<.*>::.*',r'bool coil::Expected<.*>::operator==<.*>\(.*',r'coil::Unexpected<.*> coil::makeUnexpected<.*>\(.*\)',r'coil::UniquePtr<coil::Lexer>::.*']),
 'expected':dict(units=['bind'],functions=[r'coil::Expected<.*, coil::String>::.*',r'coil::TypeName<.*>::name\(\)']),
 'values_c':dict(units=['containers'],functions=[r'coil::Value::operator=.*']),
 'vec_token':dict(functions=[V%'coil::DefaultLexer::Token']),
 'values':dict(functions=[r'coil::(Value|NamedValue|ExecutionInput|ExecutionResult|detail::CallContext|NamedArgs::Error|DefaultLexer::Token)::.*']),
 'lexer':dict(functions=[r'coil::DefaultLexer::(?!Token).*',r'.* coil::find<.*>\(.*\)',r'coil::UniquePtr<coil::DefaultLexer> coil::makeUnique<coil::DefaultLexer>\(\)'],skip=r'.*\$_0.*|.*ArgTokens.*'),
 'group':dict(functions=[r'coil::DefaultLexer::(splitGroup|createValue|is[A-Z][A-Za-z]*)\(.*\) const',r'.* coil::find<.*>\(.*\)']),
 'fmt':dict(functions=[r'coil::v?sprintf\(.*\)',r'coil::toString\(.*\)']),
 'numbers':dict(functions=[r'coil::fromString\(coil::StringView, .*&\)',r'char const\* coil::find<.*>\(.*\)'],lemmas=[('specs_fmt','roundtrip')]),
 'errors':dict(functions=[r'coil::Value::str\(\) const',r'coil::TypeName<.*>::name\(\)',r'(coil::Unexpected<coil::String> )?coil::errors::create.*']),
 'convert':dict(units=['conv'],functions=[r'coil::TypeSerializer<.*>::fromString\(.*\)',r'coil::TypeSerializer<bool.*::operator\(\).*',r'coil::Expected<.*, coil::String> arithmeticFromString<.*>\(.*\)',r'coil::Expected<.*> coil::Value::get<.*>\(\) const']),
 'print':dict(units=['conv'],functions=[r'coil::TypeSerializer<.*>::toString\(.*\)']),
 'named':dict(units=['args'],functions=[r'coil::NamedArgs::(?!Error).*',r'coil::NamedArgs::Error::Error\(coil::NamedArgs::Error::Type, coil::String\)',r'coil::(Expected|Optional)<.*> coil::NamedArgs::.*',r'coil::Expected<.*, coil::NamedArgs::Error>::.*',r'coil::Optional<.*>::.*']),
 'context':dict(functions=[r'coil::Context::.*',r'coil::Context coil::detail::createContext<0ul>\(.*\)',r'coil::detail::CallContext::(?!operator|CallContext\(coil::detail|~).*']),
 'vec_value':dict(units=['vec'],functions=[V%'coil::Value']),
 'vec_named':dict(functions=[V%'coil::NamedValue']),
 'functors':dict(units=['args'],functions=[r'coil::AnyFunctor::(?!invoke|destroy).*']),
 'bindings':dict(units=['args'],functions=[r'coil::Bindings::(?!Command).*',r'coil::BindingProxy::.*',r'coil::AnyFunctor::invokeTrampoline\(.*',r'coil::UniquePtr<coil::DefaultLexer>::.*']),
 'records':dict(functions=[r'coil::Bindings::Command::.*',r'coil::KeyValuePair<.*>::(KeyValuePair|operator=|~).*',r'coil::UnorderedMap<[^()]*>::(?!end|size|clear|rehash|reset|insert|compute|find|begin|UnorderedMap\(unsigned).*',r'void coil::exchange<coil::UnorderedMap<.*',r'coil::UnorderedMap<[^()]*>::Node::.*']),
 'vec_functor':dict(units=['args'],functions=[V%'coil::AnyFunctor']),
 'vec_node':dict(functions=[V%r'coil::UnorderedMap<.*>::Node']),
 'vec_size':dict(functions=[V%'unsigned long']),
 'calls':dict(units=['bind'],functions=[r'coil::Optional<coil::String> coil::detail::FunctionWrapper<.*>::typedCall<.*>\(.*\)',r'coil::detail::FunctionWrapper<.*>::invoke\(.*\)',r'void coil::detail::(invoke|unpackAndInvoke|reportError)<.*>\(.*\)',r'coil::detail::AnyStorage<.*>::invoke\(.*\)']),
 'bind':dict(units=['bind'],skip=r'.*AnyStorageBaseD0Ev',functions=[r'coil::detail::FunctionWrapper<.*>::(FunctionWrapper|~FunctionWrapper)(<.*>)?\(.*\)',r'void coil::detail::FunctionWrapper<.*>::typedDestroy<.*>\(\)',r'coil::detail::AnyStorage<.*>::~?AnyStorage\(.*\)',r'coil::detail::AnyStorageBase::~?AnyStorageBase\(\)',r'coil::Types<.*>::names\(\)',r'coil::AnyFunctor::AnyFunctor<.*>\(.*\)',r'coil::(AnyFunctor coil::)?detail::createAnyFunctor.*',r'coil::AnyFunctor coil::bind<.*>\(.*\)',r'coil::Vector<coil::AnyFunctor> coil::(overloaded|variable)<.*>\(.*\)',r'auto coil::(property|bindProperty)<.*>\(.*\)']),
 'register':dict(units=['bind'],functions=[r'coil::Bindings::Command const& coil::Bindings::add<.*',r'coil::BindingProxy& coil::BindingProxy::operator=<.*']),
 'calls_exc':dict(flags='exc',units=['bind'],functions=[r'coil::Optional<coil::String> coil::detail::FunctionWrapper<.*>::typedCall<.*>\(.*\)',r'coil::detail::FunctionWrapper<.*>::invoke\(.*\)',r'void coil::detail::(invoke|unpackAndInvoke)<.*>\(.*\)',r'coil::detail::AnyStorage<.*>::invoke\(.*\)']),
 'execute_exc':dict(flags='exc',units=['args'],functions=[r'coil::Bindings::execute\(.*\)',r'coil::AnyFunctor::invokeTrampoline\(.*\)']),
 'stdlib':dict(units=['stdlib'],functions=[r'coil::TypeSerializer<std::.*>::(from|to)String\(.*\)',r'coil::(to|from)Std[A-Za-z]*(\[abi:cxx11\])?\(.*\)',r'coil::Unexpected<coil::String> coil::errors::create.*<std::.*',r'coil::Expected<std::.*, coil::String>::(?!destruct).*']),
 'map':dict(functions=[r'(.* )?coil::UnorderedMap<.*>::(find|end|size|erase|clear|rehash|reset|insert|compute|begin|findNodeIndex)[A-Za-z]*(<.*>)?\(.*',r'coil::UnorderedMap<[^()]*>::UnorderedMap\(unsigned long, float\)'],lemmas=[('specs_reg','frame')]),
}
def P(*groups,level='exploration',assumptions=()):
    return dict(groups=list(groups),level=level,trusted=list(TRUST),assumptions=ASSUME+list(assumptions))
PLAN={'C%02d'%i:P() for i in range(1,23)}
LEXN=['no text or allocation reaches 2^47 bytes','formatted messages and each text put into one are shorter than 2^31 bytes','the character sets of a lexer are not moved from while it is in use']
PLAN['C01']=P('lexer','view','fmt','vec_token','vec_view','vec_value','vec_named','values','expected',level='proof',assumptions=LEXN)
PLAN['C02']=P('lexer','view','string','fmt','vec_token','vec_view','vec_value','vec_named','values','expected',level='proof',assumptions=LEXN+['termination: a measure is proved for every loop of the lexer and of coil::find; the loops of the containers and of the C library are assumed to end'])
PLAN['C03']=P('group','view','vec_view','values',level='proof',assumptions=LEXN[:1]+LEXN[2:])
NOTE={'C01':'tokenize, both parse functions, splitGroup, createValue, the character classes and the constructor proved equal to the recursive definition of the grammar (dv/specs_lex.py); bounded search runs beside it',
 'C02':'bounds, lifetime, leak and assertion obligations of the lexer and of everything it calls discharged; every piece returned proved to be a part of the text; a termination measure proved for every loop of the lexer; bounded search runs beside it',
 'C03':'splitGroup and createValue proved equal to the recursive definition of the pieces; bounded search runs beside it',
 'C09':'all functions of Vector proved against their contracts for Vector<int>, Vector<String>, Vector<StringView>, Vector<Value>, Vector<NamedValue>; bounded search runs beside it',
 'C11':'all functions of String and StringView and the String operator+ overloads proved against their contracts; bounded search runs beside it',
 'C22':'operator== / != of StringView and String, the String and StringView hashes and all StringView members proved against their contracts; bounded search runs beside it'}
VECNOTE='verified for the instantiations Vector<int>, Vector<String>, Vector<StringView>, Vector<Value>, Vector<NamedValue>; other element types share the template text but are not verified here'
PLAN['C09']=P('vec_int','vec_string','vec_view','vec_value','vec_named',level='proof',assumptions=[VECNOTE,'partial correctness: termination is not proved','aliasing of arguments: distinct objects, or the listed self-aliasing variants','no text or allocation reaches 2^47 bytes'])
PLAN['C11']=P('string','view',level='proof',assumptions=['partial correctness: termination is not proved','aliasing of arguments: distinct objects, or the listed self-aliasing variants','no text or allocation reaches 2^47 bytes','formatting (vsnprintf) is covered by C20'])
PLAN['C22']=P('textcmp','view',level='proof',assumptions=['partial correctness: termination is not proved','no text or allocation reaches 2^47 bytes'])
PC=['partial correctness: termination is not proved','no text or allocation reaches 2^47 bytes']
CONV=PC+['strtol/strtoul/strtoll/strtoull, strtof/strtod/strtold and vsnprintf behave as ISO C specifies (C locale); formatted messages and each text put into one are shorter than 2^31 bytes','texts given to a conversion are live and unchanged while it runs']
PLAN['C06']=P('numbers','convert','errors','fmt',level='proof',assumptions=CONV)
PLAN['C07']=P('numbers','convert','errors','fmt',level='proof',assumptions=CONV)
PLAN['C18']=P('numbers','fmt','print',level='proof',assumptions=CONV+['pointers are verified for the pointee types int, bool, double, String, Value; other pointees share the template text'])
PLAN['C12']=P('containers','values',level='proof',assumptions=PC+['verified for Optional<int|unsigned long|String|Value>, Expected<int|String|Value|ReferenceWrapper<Value const>, String or NamedArgs::Error>, UniquePtr<Lexer> and the library records; other instantiations share the template text','aliasing of arguments: distinct objects, or the listed self-aliasing variants'])
PLAN['C13']=P('named','context','errors','convert','fmt',level='proof',assumptions=CONV+['typed lookups are verified for int, bool, unsigned long and String; other types share the template text'])
NOTE['C13']='find, get, getOrReport (plain and typed), Context and CallContext and everything they call proved against their contracts; bounded search runs beside it'
NOTE['C06']='every function from TypeSerializer<integer>::fromString down to the C library is proved against its contract; bounded search runs beside it'
NOTE['C07']='TypeSerializer<bool|float|double|long double|String|StringView>::fromString, Value::get and everything they call are proved against their contracts; bounded search runs beside it'
NOTE['C12']='Optional, Expected, Unexpected, UniquePtr and the library records proved against value semantics contracts; bounded search runs beside it'
NOTE['C18']='toString of every number type, sprintf/vsprintf, every TypeSerializer::toString and the reading functions proved against their contracts; the round trip is a lemma over the contracts; bounded search runs beside it'
REG=('bindings','map','records','functors','vec_functor','vec_node','vec_size')
USER=['an invoked user function, getter or setter changes nothing of the call but its result','user functions and user lexers leave no moved-from String in what they return','exceptions are disabled in the verified configuration (COIL_CONFIG_CATCH_EXCEPTIONS=0)','moved-from Bindings are not used again']
PLAN['C04']=P(*REG,'context','fmt',level='proof',assumptions=CONV+USER)
PLAN['C08']=P(*REG,'textcmp',level='proof',assumptions=PC+USER+['hashing: the hash of a key is a function of its text (lemma of C22)'])
PLAN['C10']=P(*REG,'string','vec_int','vec_string','vec_view','vec_value','vec_named','containers','values',level='exploration',assumptions=PC+USER)
PLAN['C17']=P('context','fmt','string','bindings','vec_string',level='proof',assumptions=CONV+USER)
PLAN['C20']=P('errors','fmt','named','bindings','convert',level='proof',assumptions=CONV+USER)
NOTE['C04']='Bindings::execute (all three), find, the hash map, and everything they call proved against their contracts; bounded search runs beside it'
NOTE['C08']='Bindings::add/remove/get/clear/operator[], BindingProxy, the hash map and the vectors below it proved against their contracts (sequences of operations by the invariant each keeps); bounded search runs beside it'
NOTE['C10']='lifetime, leak and use-after-release obligations of Vector, String, Optional, Expected, UniquePtr, the records, AnyFunctor, the map and Bindings discharged; ownership inside the bound functors is covered by the search'
NOTE['C17']='every function that adds output or errors, and what execute does with them, is proved against its contract; bounded search runs beside it'
NOTE['C20']='conversion, piece-count and argument-count errors proved against their contracts; bounded search runs beside it'
SIGS='functions, functors, member functions and accessors are verified for the signatures instantiated in dv/units/bind.cpp (none, int, (int, String), (Context, bool, Value const&), (int, unsigned long), String, String const&, with void, int, double and String results; variables of type int, int const and String); other signatures share the template text'
OUTS=['user functions, getters, setters and member functions are called as opaque code','bound member functions are not virtual']
PLAN['C05']=P('calls','bind','register','convert','errors','fmt','print',level='proof',assumptions=CONV+USER+OUTS+[SIGS])
PLAN['C14']=P('calls','bind','convert','fmt','print',level='proof',assumptions=CONV+USER+OUTS+[SIGS])
PLAN['C15']=P('calls','bind','convert','fmt','print',level='proof',assumptions=CONV+USER+OUTS+[SIGS])
PLAN['C21']=P('bind','register','errors','functors','vec_functor','records','bindings',level='proof',assumptions=PC+USER+OUTS+[SIGS,'type names: COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS=0'])
PLAN['C10']['groups']+=['bind','register'];PLAN['C10']['level']='proof';PLAN['C10']['assumptions']+=OUTS+[SIGS]
PLAN['C17']['groups']+=['calls']
NOTE['C05']='from AnyStorage::invoke through conversion of every argument, the indirect calls, and the text form of the result: every function proved against its contract; bounded search runs beside it'
NOTE['C14']='the functors coil::variable() makes and what calling each of them does proved against their contracts; bounded search runs beside it'
NOTE['C15']='the functors coil::property() and coil::bindProperty() make and what calling each of them does (order and number of getter and setter calls) proved against their contracts; bounded search runs beside it'
NOTE['C21']='the parameter type names and return type name stored in every functor made from a function proved to be those of its signature; copying them through Bindings proved; bounded search runs beside it'
NOTE['C10']='lifetime, leak and use-after-release obligations of Vector, String, Optional, Expected, UniquePtr, the records, AnyFunctor and what it owns (storage, wrapper, function), the map and Bindings discharged; bounded search runs beside it'
PLAN['C16']=P('execute_exc','calls_exc','context','fmt',level='proof',assumptions=[x for x in CONV+USER if 'CATCH_EXCEPTIONS=0' not in x]+OUTS+[SIGS,'verified configuration: COIL_CONFIG_CATCH_EXCEPTIONS=1 (clang, Itanium exception handling); memory allocation and the library functions below the user code do not throw','copying, moving and destroying user types does not throw'])
NOTE['C16']='every function between Bindings::execute and the user function proved, in the exceptions configuration, against a contract that says what is left when the user code throws (any exception) at the call; bounded search (with exceptions compiled in) runs beside it'
PLAN['C19']=P('stdlib','convert','errors','fmt','print',level='proof',assumptions=CONV+['std::string, std::string_view, std::vector and std::optional behave as ISO C++ specifies','verified for std::vector<int|unsigned long|double|String|std::string> and std::optional<String|std::string|std::vector<int>>; other element types share the template text','the type names of std::vector and std::optional (built once, into a static object) are assumed'])
NOTE['C19']='the serializers of std::string, std::string_view, std::vector and std::optional and the conversion helpers proved against their contracts, over assumed contracts of the standard containers; bounded search runs beside it'
PLAN['C12']['groups']+=['expected','values_c'];PLAN['C05']['groups']+=['expected'];PLAN['C10']['groups']+=['expected','values_c','vec_token']
