// forced include for bitcode builds: std::string member functions are instantiated in the bitcode instead of being taken from libstdc++.so,
// so that they are executed symbolically; streams stay external and are modelled by runtime.cpp
#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#endif
