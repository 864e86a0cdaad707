// The real code generator, its output executed by the interpreter.
#pragma once
#include "x86.hpp"
#include "CharClass.hpp"
namespace Centaurus { template<> inline size_t CharClass<TC>::hash() const { return 0; } }
#ifdef GRAMMAR_FILES
#include "grammar.hpp"
#else
#include "Grammar.hpp"
#endif
#include "CodeGenEM64T.hpp"
using namespace Centaurus;
static std::vector<TC> padded(const std::vector<uint64_t>&x){ std::vector<TC> t; for(uint64_t v:x) t.push_back((TC)v); for(int i=0;i<34;i++) t.push_back(0); return t; } // input windows end in zeros
