#pragma once
#include "/usr/include/x86_64-linux-gnu/openblas-pthread/cblas.h"
