// Declarations under which clang checks every diagnostic call of the library against its format string (check C27).
// The check compiles the sources with -Dnloginfo=nv_nloginfo and so on: the literal picks the annotated overload.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <string>
namespace nikfemm {
    void nv_nloginfo(const char* format, ...) __attribute__((format(printf, 1, 2), deprecated("NVSITE")));
    void nv_nloginfo(std::string format, ...) __attribute__((deprecated("NVSITE-string")));
    void nv_nlogwarn(const char* format, ...) __attribute__((format(printf, 1, 2), deprecated("NVSITE")));
    void nv_nlogwarn(std::string format, ...) __attribute__((deprecated("NVSITE-string")));
    void nv_nlogerror(const char* format, ...) __attribute__((format(printf, 1, 2), deprecated("NVSITE")));
    void nv_nlogerror(std::string format, ...) __attribute__((deprecated("NVSITE-string")));
}
extern "C" {
    int printf(const char*, ...) __attribute__((deprecated("NVSITE")));
    int fprintf(FILE*, const char*, ...) __attribute__((deprecated("NVSITE")));
    int snprintf(char*, size_t, const char*, ...) __attribute__((deprecated("NVSITE")));
    int sprintf(char*, const char*, ...) __attribute__((deprecated("NVSITE")));
}
