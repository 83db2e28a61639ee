// Stand-in for the structures of libqi geometry.
#pragma once
#include <cassert>
#include <cmath>
#include <ostream>
namespace qi {
namespace geometry {
struct Vector3 { double x, y, z; };
struct Quaternion { double x, y, z, w; };
struct Transform { Quaternion rotation; Vector3 translation; };
}
}
