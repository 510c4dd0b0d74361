// Instrumented instantiations of the string and stream templates the library uses, so that the
// seam also sees the accesses and allocations made inside them.
#include <sstream>
#include <string>
template class std::basic_string<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
template class std::basic_istringstream<char>;
