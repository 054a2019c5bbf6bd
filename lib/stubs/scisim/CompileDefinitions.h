// Stands in for the header CMake generates from scisim/CompileDefinitions.h.in.
#pragma once
namespace CompileDefinitions { constexpr char GitSHA1[] = "0123abcd"; constexpr char BuildMode[] = "b"; constexpr char CCompiler[] = "c"; constexpr char CXXCompiler[] = "c"; }
