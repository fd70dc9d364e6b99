// Stand-in for the header that CMake generates (export macros).
#ifndef ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT __attribute__(( visibility( "default" ) ))
#define REISERRT_CORE_NO_EXPORT __attribute__(( visibility( "hidden" ) ))
#define ReiserRT_Core_NO_EXPORT __attribute__(( visibility( "hidden" ) ))
#define REISERRT_CORE_DEPRECATED __attribute__(( __deprecated__ ))
#define ReiserRT_Core_DEPRECATED __attribute__(( __deprecated__ ))
#define REISERRT_CORE_EXPORT ReiserRT_Core_EXPORT
#endif
