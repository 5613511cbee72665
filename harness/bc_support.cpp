// Linked into the bitcode only: definitions of the std::string members that normally live in libstdc++.so
#include <string>
template class std::__cxx11::basic_string<char>;
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
