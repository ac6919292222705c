// Out-of-line string members as seen by C++14 code.
#include <string>
namespace std {
template class basic_string<char>;
template basic_string<char>& basic_string<char>::append(const char*, const char*);
template basic_string<char>::basic_string(const char*, const char*, const allocator<char>&);
template basic_string<char>::basic_string(string::iterator, string::iterator, const allocator<char>&);
template basic_string<char>::basic_string(string::const_iterator, string::const_iterator, const allocator<char>&);
template string operator+(const char*, const string&);
template string operator+(const string&, const string&);
template string operator+(char, const string&);
template string operator+(const string&, const char*);
}
