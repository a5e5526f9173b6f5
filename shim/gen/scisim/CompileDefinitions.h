#ifndef COMPILE_DEFINITIONS_H
#define COMPILE_DEFINITIONS_H
namespace CompileDefinitions
{
  constexpr char GitSHA1[]{ "verif" };
  constexpr char BuildMode[]{ "verif" };
  constexpr char CCompiler[]{ "verif" };
  constexpr char CXXCompiler[]{ "verif" };
}
#endif
