void* sim_malloc(unsigned long); void* sim_calloc(unsigned long, unsigned long); void* sim_realloc(void*, unsigned long);
