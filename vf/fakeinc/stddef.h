typedef unsigned long size_t;
