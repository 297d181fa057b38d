  // root of the AES polynomial fixed by the FAEST specification, little-endian bytes
  static const char* R128 = "0dce6055ace83fa11c9a97a955853d05";
  static const char* R192 = "6397386fd5a3c8cceabd6e966cd765e662366b0e14c80b31";
  static const char* R256 = "e7fede0b42889796674e47a0388dd6be6ae1f1f8459822df3358c920cfa8c904";
  Bytes b = unhex(n == 128 ? R128 : n == 192 ? R192 : R256);
  return fload(n, b.data());
