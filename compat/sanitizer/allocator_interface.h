// gcc ships the sanitizer run-time without this header.
#pragma once
#include <stddef.h>
extern "C" {
size_t __sanitizer_get_estimated_allocated_size(size_t size);
int __sanitizer_get_ownership(const volatile void* p);
size_t __sanitizer_get_allocated_size(const volatile void* p);
size_t __sanitizer_get_current_allocated_bytes();
size_t __sanitizer_get_heap_size();
size_t __sanitizer_get_free_bytes();
size_t __sanitizer_get_unmapped_bytes();
void __sanitizer_purge_allocator();
}
