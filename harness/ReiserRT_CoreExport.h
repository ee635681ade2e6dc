// Stand-in for the header CMake generates (GenerateExportHeader): visibility only, no code.
#ifndef ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT_H
#define ReiserRT_Core_EXPORT __attribute__((visibility("default")))
#define REISERRT_CORE_NO_EXPORT __attribute__((visibility("hidden")))
#define ReiserRT_Core_NO_EXPORT __attribute__((visibility("hidden")))
#endif
