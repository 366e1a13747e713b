/* linked in front of and behind the program's objects: its static data lies in between, and every run starts with it as
   it is when a process starts */
#ifdef EDGE_END
char edge_d1[16] __attribute__((section(".data"), aligned(16))) = {1};
char edge_b1[16] __attribute__((section(".bss"), aligned(16)));
#else
char edge_d0[16] __attribute__((section(".data"), aligned(16))) = {1};
char edge_b0[16] __attribute__((section(".bss"), aligned(16)));
#endif
