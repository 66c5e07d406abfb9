// Shared pieces of the harnesses: quiet logging (STUB: logging functions have empty bodies).
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "sym.h"
#include "env.h"
#define EX extern "C" __attribute__((visibility("default"), used, noinline))
