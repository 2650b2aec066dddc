// Emulated EEPROM in the flash of the SAM3X
#pragma once
#include <Arduino.h>
struct DueFlashStorage
{
  byte read(uint32_t a);
  byte *readAddress(uint32_t a);
  bool write(uint32_t a, byte v);
  bool write(uint32_t a, byte *d, uint32_t n);
  bool write_unlocked(uint32_t a, byte v);
  bool write_unlocked(uint32_t a, byte *d, uint32_t n);
};
