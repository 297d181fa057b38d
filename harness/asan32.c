/* what the sanitizer's library wants of the C library's static part */
int __cxa_atexit(void(*)(void*),void*,void*);
int atexit(void (*f)(void)) { return __cxa_atexit((void(*)(void*))f, 0, 0); }
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return 0; }
