#include <../src/main/cpp/main.cpp>
