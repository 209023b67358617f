#pragma once
#define VECMEM_VERSION "0.0.0"
#define VECMEM_VERSION_MAJOR 0
#define VECMEM_VERSION_MINOR 0
#define VECMEM_VERSION_PATCH 0
