#pragma once
#define VECMEM_CORE_EXPORT
#define VECMEM_CORE_NO_EXPORT
