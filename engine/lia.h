#pragma once
#include "expr.h"
bool liaBool(Z3_context c, Expr* e, Z3_ast* out); // false: cannot be translated exactly
Z3_ast liaVar(u32 v);
bool liaHeavy(Expr* e);
