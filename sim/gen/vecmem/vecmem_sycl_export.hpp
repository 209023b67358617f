#pragma once
#define VECMEM_SYCL_EXPORT
#define VECMEM_SYCL_NO_EXPORT
