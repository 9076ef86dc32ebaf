// Forced in front of every translation unit compiled for the engine: have libstdc++'s
// templates (std::string, streams) instantiated into the bitcode instead of left external.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
