/* the entry of a 32 bit program, for a system that has the 32 bit C library but not its start files */
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n pop %esi\n mov %esp,%ecx\n and $-16,%esp\n push %eax\n push %esp\n push %edx\n push $0\n push $0\n push %ecx\n push %esi\n"
        " call .Lpc\n.Lpc: pop %eax\n add $_GLOBAL_OFFSET_TABLE_+[.-.Lpc],%eax\n mov %eax,%ebx\n mov main@GOT(%ebx),%eax\n push %eax\n call __libc_start_main@PLT\n hlt\n");
void __stack_chk_fail_local(void) { __builtin_trap(); }
