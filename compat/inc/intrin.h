#pragma once
#include <immintrin.h>
#include <x86intrin.h>
#include <cpuid.h>
