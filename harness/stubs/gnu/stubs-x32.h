/* cross targets need no libc stubs */
