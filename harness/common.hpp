#pragma once
#include "../engine/sx.h"
#include <vector>
#include <string>
#include <set>
#include <map>
#include <functional>
// branch-free boolean helpers for oracles (keep the number of explored paths down)
static inline bool bor(bool a,bool b){ return (unsigned)a|(unsigned)b; }
static inline bool band(bool a,bool b){ return (unsigned)a&(unsigned)b; }
