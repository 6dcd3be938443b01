// bodies of library templates that are otherwise only available as object code
#include <string>
template class std::basic_string<char>;
