#pragma once
// stands in for the export header that the build generates
#define ALMATH_API
#define ALMATH_NO_EXPORT
#define ALMATH_DEPRECATED
#define ALMATH_DEPRECATED_EXPORT
#define ALMATH_DEPRECATED_NO_EXPORT
