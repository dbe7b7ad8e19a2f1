#include "lexer.h"
void run() { lexerRun(GROUPS); }
