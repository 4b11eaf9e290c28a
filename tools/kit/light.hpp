#pragma once
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c); return 1; } } while (0)
