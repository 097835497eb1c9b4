/* cross target: no libc stubs */
