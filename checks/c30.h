#pragma once
namespace canary {
extern const int N;
extern const char *NAME[];
bool sound(int k);
double call(int k, int arg);
}
namespace readers {
struct Objects;
extern const int N;
const char *name(int k);
Objects *make(int variant);
void call(int k, const Objects &o);
}
