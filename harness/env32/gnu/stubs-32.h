/* the compiler's 64 bit headers serve 32 bit programs as well */
