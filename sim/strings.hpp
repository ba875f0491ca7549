// Included first in the builds that instrument std::string too: its members are then
// instantiated in the program, with scheduling points, and not taken from libstdc++.so.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
