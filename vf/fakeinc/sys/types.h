typedef long ssize_t;
