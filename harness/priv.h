// the daemon's own headers are read with every member visible
#pragma once
#include <memory>
#include <sstream>
#include "nzbget.h"
#define private public
#define protected public
