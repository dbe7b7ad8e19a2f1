import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech]))
    if state: d['anchors']['state']=[dict(name=s[0],meaning=s[1],where=s[2]) for s in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
L='src/DefaultLexer.cpp'
p('C01','Command text is parsed exactly as the command grammar says',
 "For every command text and every choice of delimiter characters, parsing yields exactly one outcome: the command name, the positional arguments and the named arguments in order of appearance that the grammar (whitespace-separated words; `=` binding a name to the value after it; quoted strings; bracketed or separator-joined groups) assigns to that text, or a syntax error naming the first offending token. Text that is empty or only whitespace gives an empty name and no arguments; an unclosed quote or bracket, a leading token that is not a plain word, and a `=` without a name or without a value are always syntax errors. Quoted text is taken verbatim, whatever separators, spaces or brackets it contains.",
 ['inputs','configurations'],'all command texts (every length, every byte value) and all delimiter sets',
 'The lexer tests sample about sixty short texts with the default delimiters; the property ranges over every byte string, every position at which a token class can change, and every configured delimiter set.',
 [L,'include/coil/detail/DefaultLexer.h'],
 [('tokenizer',L+': tokenize'),('argument assembly',L+': parse(Vector<Token>)'),('character classes',L+': getCharType')],
 [('position','index of the next unread character',L),('pending tokens','name/value waiting to be turned into an argument',L)],
 ['Lexer::parse result'])
p('C02','Parsing never touches memory outside the given text and always ends',
 "For every command text (including texts that are not NUL-terminated, contain NUL bytes, or end inside a quote, group or assignment), parsing terminates, reads no byte outside the text, trips no internal check and leaks nothing. The name, the keys and every value piece it returns are pieces of the given text itself: they lie entirely within it and are never longer than it.",
 ['inputs','configurations'],'all byte strings and all delimiter sets',
 'Tests run a few well-formed NUL-terminated literals; an out-of-range read or an inverted range needs one particular arrangement of delimiters at the end of a piece of text.',
 [L,'src/StringView.cpp','include/coil/detail/Algorithm.h'],
 [('bounds',L+': loop guards'),('sub-views','src/StringView.cpp: substr')],
 [('view','pointer and length into the caller\'s text','include/coil/detail/StringView.h')])
p('C03','Groups split into exactly the pieces between separators',
 "The value of a bracketed group or of a separator-joined word is the list of its maximal separator-free pieces in order of appearance, where separators and whitespace inside quotes do not split, and one pair of quotes is removed from a piece that starts and ends with a quote. Runs of separators never produce empty pieces, so an empty group is a value with no pieces. A value that is a plain or quoted word always has exactly one piece.",
 ['inputs','configurations'],'all group texts and delimiter sets',
 'Tests use a handful of groups such as (a, b); pieces with quotes in odd places, trailing separators and one-character pieces are not enumerated.',
 [L],[('group splitting',L+': splitGroup'),('value construction',L+': createValue')])
p('C04','A command line runs at most one overload, chosen by argument count',
 "Executing a command runs exactly the first overload, in registration order, of the command with exactly that name whose parameter count equals the number of positional arguments, and runs it at most once. If the name is empty, not registered, or no overload accepts that many arguments, or the text does not parse, then nothing runs, exactly one error describing which of these happened is reported, and there is no return value. The result hands back the name and arguments that were executed.",
 ['inputs','histories'],'all registries, command names and argument counts',
 'Tests register a few overload sets and call a few of them; the property quantifies over every registry content, every overload order and every argument count.',
 ['src/Coil.cpp','include/coil/detail/Bindings.h'],
 [('lookup and selection','src/Coil.cpp: Bindings::execute(CallContext&)'),('result assembly','src/Coil.cpp: Bindings::execute(ExecutionInput), execute(StringView)')],
 [('command table','name to overload list','include/coil/detail/Bindings.h')],['ExecutionResult'])
p('C05','A callable runs only with every argument successfully converted',
 "A bound callable is invoked exactly once, with the converted arguments in the order given, if every positional argument converts to its parameter type; otherwise it is not invoked at all and exactly the conversion errors are reported, one per failing argument, in argument order. A return value is present if and only if the callable ran, returns something, and no error was reported; it is then the text form of what the callable returned.",
 ['inputs','programs'],'all argument texts, for every arity and parameter type combination',
 'Tests bind a few functions and pass mostly valid arguments; combinations of which arguments fail, in which order, and errors reported by the callable itself are not enumerated.',
 ['include/coil/detail/FunctorCaller.h','include/coil/detail/FunctionWrapper.h','include/coil/detail/AnyFunctor.h'],
 [('conversion and invocation','include/coil/detail/FunctorCaller.h: invoke, unpackAndInvoke'),('type-erased call','include/coil/detail/FunctionWrapper.h: invoke, typedCall')])
p('C06','Integer arguments are accepted exactly when they denote a value in range',
 "A piece of text converts to an integer type if and only if it is an optional run of leading whitespace, an optional sign (no minus sign for unsigned types) and one or more decimal digits, with nothing else before or after, and the denoted number lies in the range of that type; the result is then exactly that number. Any other text, including the empty text, out-of-range numbers and text with embedded NUL bytes, is refused, and a refused conversion of an integer argument reports an error that names the type and the text.",
 ['inputs'],'all texts and all integer types',
 'Tests check boundary values and a few malformed texts per type; acceptance must be exact on every text and for every width.',
 ['src/StringConv.cpp','src/Coil.cpp'],
 [('strtoX wrappers','src/StringConv.cpp: signedIntegerFromString, unsignedIntegerFromString'),('narrowing','src/StringConv.cpp: signedAliasFromString, unsignedAliasFromString'),('argument conversion','src/Coil.cpp: arithmeticFromString')])
p('C07','Boolean, floating-point and text arguments convert by exact rules',
 "A value converts to a boolean only if it is a single piece equal to 1, 0, or, ignoring letter case, true or false, with the matching truth value; to a text only if it is a single piece, which is returned unchanged byte for byte; and to a floating-point number only if the whole single piece is a number representable without range error, giving what the C library's conversion gives. A value with no piece or with several pieces never converts to a scalar type and reports the expected and actual piece counts.",
 ['inputs'],'all values (any number of pieces, any bytes)',
 'Tests check a few spellings; the rule must hold for every byte string and every number of pieces.',
 ['src/Coil.cpp','src/StringConv.cpp'],
 [('serializers','src/Coil.cpp: TypeSerializer<bool/String/StringView/arithmetic>::fromString'),('float parsing','src/StringConv.cpp: floatFromString')])
p('C08','The command registry behaves as a map from names to overload lists',
 "After any sequence of registering, re-registering, removing and clearing commands, looking up a name finds a command if and only if the name was registered since its last removal or the last clear, and what is found is the overload list registered last for exactly that name. Operations on one name never affect any other, and a command's own reported name always reads as the name it was registered under, however many commands were added or removed since.",
 ['histories','inputs'],'all operation histories and all names, including colliding hashes',
 'Tests run a few short histories; chains of colliding names, erasures from the middle and growth at particular sizes are reachable only by particular histories.',
 ['include/coil/detail/UnorderedMap.h','src/Coil.cpp'],
 [('hash table','include/coil/detail/UnorderedMap.h: insertOrAssign, erase, find, rehash'),('registry operations','src/Coil.cpp: Bindings::add, remove, get, clear')],
 [('nodes/buckets','doubly linked chains over a dense node array','include/coil/detail/UnorderedMap.h')])
p('C09','Vectors behave as sequences',
 "After any sequence of operations the vector holds exactly the elements the sequence semantics prescribes, in order: appending adds one at the end, removing the last drops one, resizing keeps the common prefix and default-fills the rest, reserving and growing change nothing visible, copying yields an equal independent vector, and moving transfers the content. Size never exceeds capacity, element access reads the element stored last at that index, and equality holds exactly when sizes and all elements are equal.",
 ['histories','programs'],'all operation histories and element types',
 'Tests run fixed short histories on a few element types; reallocation boundaries and element classes with non-trivial moves are sampled only.',
 ['include/coil/detail/Vector.h','include/coil/detail/Buffer.h','src/Buffer.cpp'],
 [('growth','include/coil/detail/Vector.h: pushBack, grow, resize, reserve'),('storage','src/Buffer.cpp')])
p('C10','Every object the library stores is constructed and destroyed exactly once',
 "Every element put in a vector, optional, expected, owning pointer, command or overload list is constructed before use, never used or destroyed twice, and destroyed exactly once by the time its owner is gone, through every combination of growth, copy, move, assignment, removal and replacement. Every allocation is released exactly once, with nothing leaked and nothing used after release.",
 ['histories','programs'],'all operation histories of the owning types',
 'Lifetime bugs need a particular history (assignment over a full optional, growth while moved from, erasing the last node); the tests count lifetimes only on a few.',
 ['include/coil/detail/Vector.h','include/coil/detail/Buffer.h','include/coil/detail/Optional.h','include/coil/detail/Expected.h','include/coil/detail/UniquePtr.h','include/coil/detail/AnyFunctor.h','include/coil/detail/FunctionWrapper.h','src/Coil.cpp'],
 [('constructNext/destructLast','include/coil/detail/Buffer.h'),('functor ownership','include/coil/detail/FunctionWrapper.h, include/coil/detail/AnyFunctor.h')])
p('C11','Strings hold exactly the bytes put in and stay NUL-terminated',
 "After any sequence of constructing, copying, moving, assigning, appending, reserving and resizing, a string holds exactly the bytes the operations prescribe (including embedded NULs), its length is their number, and the byte after the last one is NUL. Appending a string, or any part of it, to itself gives the same result as appending a copy; concatenation leaves its operands unchanged, and growing keeps the prefix.",
 ['histories','inputs'],'all histories and contents, including self-append',
 'Tests append short literals; self-append, capacity boundaries and embedded NULs need particular contents.',
 ['src/String.cpp','src/Buffer.cpp','include/coil/detail/String.h'],
 [('append/resize/reserve','src/String.cpp')])
p('C12','Optional, expected and owning pointer keep their state and value consistent',
 "An optional is either empty or holds one value, an expected holds either a value or an error, and an owning pointer owns one object or none; after any construction, copy, move, assignment (in all four combinations of source and destination state) the destination has the state and value the source had, and copies leave the source unchanged. Comparison holds exactly when states agree and the held values or errors are equal.",
 ['histories','programs'],'all assignment histories over both states and all payload values',
 'Tests cover selected combinations with a few payloads.',
 ['include/coil/detail/Optional.h','include/coil/detail/Expected.h','include/coil/detail/Unexpected.h','include/coil/detail/UniquePtr.h'],
 [('state switch','include/coil/detail/Expected.h: operator=, constructFrom, destruct'),('optional assignment','include/coil/detail/Optional.h: operator=')])
p('C13','Named arguments are found by exact key and reported as promised',
 "Looking up a named argument returns the first one in order of appearance whose key is exactly the requested key, or a missing-key error naming the key; a typed lookup gives the converted value, or a type-mismatch error carrying the conversion error. The reporting lookup adds an error to the call if and only if the argument is required and missing, or present but not convertible; an absent optional argument silently yields the supplied default, and no lookup changes the arguments.",
 ['inputs'],'all named-argument lists, keys and value types',
 'Tests use single short lists; duplicate keys, keys that are prefixes of each other, and each required/optional, missing/mismatch/default combination form a product the tests sample.',
 ['src/Coil.cpp','include/coil/detail/NamedArgs.h'],
 [('lookup','src/Coil.cpp: NamedArgs::find, get, getOrReport'),('typed lookup','include/coil/detail/NamedArgs.h')])
p('C14','A bound variable is read without arguments and written only by valid ones',
 "Executing a command bound to a variable with no argument returns its current value and changes nothing; with one argument that converts, the variable becomes exactly that value and the new value is returned; with one that does not convert, or with any other argument count, the variable is unchanged and an error is reported. A variable bound read-only is never changed: an attempt to set it reports exactly one read-only error (or the conversion error) and no value.",
 ['inputs','histories','programs'],'all variable types, values and argument texts',
 'Tests use an int or two; every type, every malformed argument and every history of reads and writes is out of reach.',
 ['include/coil/detail/Variable.h','include/coil/detail/Overloaded.h'],
 [('get/set overloads','include/coil/detail/Variable.h')])
p('C15','A bound property calls its getter and setter exactly as promised',
 "With no argument a property calls its getter once, never the setter, and returns its value; with one convertible argument it calls the setter exactly once with that value, then the getter once, and returns what the getter then gives; with an unconvertible argument it calls neither. A read-only property never calls anything that modifies it: an attempt to set it reports exactly one read-only error and gives no value; a property bound to an object acts on exactly that object.",
 ['inputs','histories','programs'],'all getter/setter pairs and argument texts',
 'Tests bind one or two objects and do not fix call counts and order for every path.',
 ['include/coil/detail/Property.h','include/coil/detail/Overloaded.h'],
 [('property closures','include/coil/detail/Property.h')])
p('C16','Exceptions thrown by a command are contained and reported once',
 "When exception catching is enabled, whatever a bound callable or argument conversion throws, executing the command does not throw: it returns a result with exactly one additional error (carrying the exception's message for standard exceptions), no return value, and the output produced before the throw. The registry is unchanged and later commands run normally, with every temporary released.",
 ['fault_sequences','inputs'],'every point of a call at which the callable or a conversion throws, any exception type',
 'Tests throw one standard exception and one int from one function body.',
 ['src/Coil.cpp'],[('try/catch around the call','src/Coil.cpp: Bindings::execute(CallContext&)')])
p('C17','Output and errors of a call accumulate in order and belong to that call only',
 "The output of a call is exactly the concatenation, in order, of what the callable logged (with one newline after each line-logging call), and its errors are exactly the reported ones in order, none lost, merged or duplicated. Errors exist if and only if the call says it has errors, and neither output nor errors leak into any other call.",
 ['histories','inputs'],'all sequences of logging and error reporting calls, all texts',
 'Tests log one or two short lines per call.',
 ['src/Coil.cpp','include/coil/detail/Context.h'],
 [('log, logline, logf, loglinef, reportError','src/Coil.cpp: Context'),('error list','src/Coil.cpp: detail::CallContext')])
p('C18','Numbers printed by the library read back as the same number',
 "The text form of an integer is its shortest decimal notation (a minus sign only for negative numbers, no leading zeros or plus sign), and converting that text back to the same type gives the same number, for every value of every integer type; formatted messages have exactly the length and content the format prescribes, at any length. The text form of a floating-point number is 0 when its magnitude is below one millionth and otherwise its six-significant-digit general notation; booleans print as true and false, null pointers as null.",
 ['inputs'],'all values of all numeric types, all formatted lengths',
 'Tests print a dozen values; the round trip must hold for the whole range of each type.',
 ['src/StringConv.cpp','src/Coil.cpp'],
 [('toString','src/StringConv.cpp'),('formatting','src/Coil.cpp: sprintf, vsprintf')])
p('C19','Standard strings, vectors and optionals convert piece by piece',
 "A value converts to a standard vector exactly when every piece converts to the element type, giving the converted pieces in order, and otherwise reports an error carrying the first failing piece's error; it converts to a standard optional as empty when there is no piece or the first piece is empty, and otherwise as the converted first piece or an error. Standard strings and views convert from a single piece byte for byte, and the text forms are `[a, b, c]` for vectors, and the inner text or the empty text for optionals.",
 ['inputs','programs'],'all values, any number of pieces, all element types',
 'Tests convert a few small vectors and optionals.',
 ['include/coil/StdLibCompat.h'],[('container serializers','include/coil/StdLibCompat.h')])
p('C20','Error messages say what was wrong, with the offending text in full',
 "A conversion error states the whole offending value (its pieces joined by single spaces), the name of the type asked for and, when given, the details; a piece-count error states the expected and actual counts; a wrong-argument-count error states the command name, every accepted count in registration order and the actual count. Names, keys and values (texts without NUL bytes) appear in messages exactly as given, even when they are only part of a longer text.",
 ['inputs','histories'],'all values, type names, command names and overload sets',
 'Tests compare a few fixed messages.',
 ['src/Coil.cpp','include/coil/detail/TypeSerializer.h'],
 [('error constructors','src/Coil.cpp: errors::createGenericError, createMismatchedSubvaluesError'),('arity error','src/Coil.cpp: Bindings::execute(CallContext&)'),('value text','src/Coil.cpp: Value::str')])
p('C21','Introspection reports the real signature of every bound callable',
 "For every callable bound in any way, each overload reports as its parameter count and parameter type names exactly the user-supplied parameters in declaration order (the call context parameter is never counted), and as its return type name the type of what it returns, ignoring references, constness and pointers. These reports survive registering, replacing and moving commands.",
 ['programs','histories'],'all callable signatures',
 'Tests check a few signatures.',
 ['include/coil/detail/AnyFunctor.h','include/coil/detail/Types.h','include/coil/detail/FuncTraits.h','include/coil/detail/TypeName.h','src/Coil.cpp'],
 [('type lists','include/coil/detail/Types.h: names'),('functor metadata','include/coil/detail/AnyFunctor.h')])
p('C22','Text equality is exact and equal texts hash equally',
 "Two texts compare equal if and only if they have the same length and the same bytes, whatever they contain and wherever they are stored, and inequality is its negation. Equal texts, whether held as an owned string or as a view, have equal hashes, and taking a sub-view yields exactly the requested bytes.",
 ['inputs'],'all pairs of byte strings',
 'Tests compare a few literals.',
 ['src/StringView.cpp','src/String.cpp'],
 [('comparison, hashing','src/StringView.cpp: operator==, Hash')])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
