typedef decltype(nullptr) nullptr_t;
