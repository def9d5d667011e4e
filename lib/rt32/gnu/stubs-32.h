/* no 32-bit C library is used */
