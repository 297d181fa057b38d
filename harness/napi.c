/* C23: constants of the NIST-style headers of one set */
#include FV_HEADER
#include <stdio.h>
int main(void) {
  printf("NIST %s %s %ld %ld %ld\n", FV_SET, CRYPTO_ALGNAME, (long)CRYPTO_PUBLICKEYBYTES, (long)CRYPTO_SECRETKEYBYTES, (long)CRYPTO_BYTES);
  return sizeof(crypto_sign_keypair(0, 0)) + sizeof(crypto_sign(0, 0, 0, 0, 0)) + sizeof(crypto_sign_open(0, 0, 0, 0, 0)) != 3 * sizeof(int);
}
